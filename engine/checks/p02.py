from vf import errrule
TITLE = "ShEx validation never turns a failure of an operation into a verdict"


def run(c):
    errrule.run_rule(
        c, "shex-err", "every failing operation of the ShEx validator makes the enclosing function report an error on every path on which it failed; "
        "a triple-expression mismatch (rbe::RbeError) and a failing semantic action (SemanticActionError) are verdicts of the language, not failures",
        r"^shex_validation/src/", 110, "calls returning Result in the validator", ignore_err=("rbe::rbe_error::RbeError", "SemanticActionError"),
        exempt=[(r"MatchTableIter|@\(next#", "elements of the match iterator are match verdicts (RbeError)")])
