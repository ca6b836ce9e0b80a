from vf import errrule
TITLE = "A failed command or library operation is reported, never silently successful"


def run(c):
    errrule.run_rule(
        c, "lib-err", "every failing operation of rudof_lib's operations makes the enclosing function report an error",
        r"^rudof_lib/src/", 380, "calls returning Result in rudof_lib",
        exempt=[(r"::check_shex_schema .*load_shex_schema", "the operation asks whether the schema loads; 'no' is its answer, the error text goes to the output"),
                (r"terminal::size$", "layout hint of the terminal")])
    errrule.run_rule(
        c, "cli-err", "every failing operation of the command-line program makes the enclosing function, and with it the process, report an error; the interactive shell prints errors and goes on",
        r"^rudof_cli/src/", 220, "calls returning Result in rudof_cli", skip="/shell/|/color.rs", ignore_err=("dotenvy::", "FromEnv"))
