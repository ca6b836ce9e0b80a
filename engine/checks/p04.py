from vf import errrule
TITLE = "A failed MCP operation is reported as an error"


def run(c):
    errrule.run_rule(
        c, "mcp-err", "every failing operation of the MCP service makes the enclosing function report an error (an Err, a tool result that carries it, or an HTTP error status)",
        r"^rudof_mcp/src/", 190, "calls returning Result in rudof_mcp", ignore_err=("StatePersistenceError",),
        exempt=[(r"service::logging::", "delivery of log notifications is best effort"),
                (r"RudofMcpService::try_new .*execute$|state::load_state .*load_state_from_path", "restoring earlier state at start-up is documented as best effort"),
                (r"serde_json|ser::to_string$", "serialising a list of strings cannot fail"),
                (r"output_schema_for ", "static schema of the tool description")])
