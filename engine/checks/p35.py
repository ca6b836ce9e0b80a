from vf import errrule, errflow
from vf.absint import TRUE
TITLE = "Reading or querying RDF data never silently yields partial data"


class Strict(errflow.ErrPolicy):
    """analysed in strict reading mode: in lax mode skipping is what was asked for"""

    def on_call(self, I, site, name, callee, args, st):
        if name.endswith("ReaderMode::is_strict"):
            return [(TRUE, st)]
        return super().on_call(I, site, name, callee, args, st)


def run(c):
    errrule.run_rule(
        c, "rdf-err", "every failing operation of the RDF layer (parsing in strict mode, SPARQL execution, HTTP endpoint access, conversion of results) makes the "
        "enclosing function report an error on every path on which it failed",
        r"^(rudof_rdf/src/rdf_impl/oxigraph|rudof_rdf/src/rdf_core/(neighs_rdf|query|matcher|async)|sparql_service/src)", 140,
        "calls returning Result in the RDF layer", policy=Strict,
        exempt=[(r"QuerySolutions.*as_json .*to_string_pretty", "serialising plain JSON values cannot fail"),
                (r"resolve_prefix_local .*resolve_prefix_local", "several prefix maps are tried in turn; the error is reported when none knows the prefix"),
                (r"::lang .*Lang::new$", "asks whether a literal carries a (valid) language tag")])
