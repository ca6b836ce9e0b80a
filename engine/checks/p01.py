from vf import errrule
TITLE = "SHACL validation never turns a failure of an operation into a verdict"


def run(c):
    errrule.run_rule(
        c, "shacl-err", "every failing operation of the SHACL validator (data access, SPARQL, shape lookup, nested validation) makes the enclosing "
        "function report an error on every path on which it failed; kind tests (term_as_*, try_into, parse) answer a question and are exempt",
        r"^shacl/src/validator/", 175, "calls returning Result in the validator")
