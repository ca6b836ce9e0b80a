"""P41: what an MCP tool call says is what the library is asked, and what the library answers is what the caller gets. Every tool of the service is
interpreted on requests of a grid with the library's operations recorded (and made to write, or to fail) instead of run."""
import re
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.natives import final_ptr
from vf.table import *
from checks import p12

TITLE = "An MCP tool asks the library for what the call says and returns what it answers"
SVC = "rudof_mcp::service::mcp_service::RudofMcpService"
CTR = "rmcp::model::CallToolResult"
FAILURE = ("a", "FAILURE", "", ())
PAR = "rmcp::handler::server::wrapper::parameters::Parameters"


class M:
    def __init__(m, P):
        m.P = P
        m.A = p12.M(P)
        m.tools = {}
        for f in P.fns.values():
            g = re.search(r"::(\w+)$", f.id)
            if f.kind == "method" and "::service::tools::" in f.id and SVC in f.id and f.argc == 2 and P.fns.get(f.id + "::{closure#0}") and P.fns[f.id + "::{closure#0}"].kind == "coroutine":
                m.tools[g.group(1)] = f
        txt = lambda r: (lambda I, s, n, cc, a, st: [(r, st)] if a and I.deref(a[0], st) == FAILURE else None)
        mcp = lambda I, s, n, cc, a, st: [(("a", "MCPERROR", "", ()), st)]
        hs = [(r"(Display|Debug).*::fmt$", txt(Ok(UNIT))), (r"ToString.*::to_string$", txt(("s", "failed"))), (r"Mutex::(?:<.*?>::)?(lock|lock_owned|blocking_lock)$", m.h_lock), (r"(^|::)mem::drop$", m.h_drop),
              (r"service::state::save_state$", m.h_save), (r"service::state::is_persistence_available$", lambda I, s, n, cc, a, st: [(("b", m.available), st)]), (r"InputSpec as .*FromStr>::from_str$", m.h_spec),
              (r"String::from_utf8$|str::(?:\w+::)*from_utf8$", m.h_utf8), (r"serde_json::(?:\w+::)*to_value$", m.h_json),
              (r"CallToolResult::(success|error|structured|structured_error)$", m.h_result), (r"Annotated::<.*>::(text|image)$|[Cc]ontent::(?:<.*>::)?(text|image)$", m.h_content),
              (r"Cursor::(?:<.*?>::)?(new|into_inner|get_ref|get_mut)$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]),
              (r"Engine::encode$", lambda I, s, n, cc, a, st: [(("a", "B64", "", (I.deref(a[-1], st),)), st)]),
              (r"ErrorData::\w+$|service::errors::\w+$", mcp), (r"RudofMcpService::current_request_context$", lambda I, s, n, cc, a, st: [(NONE, st)]),
              (r"^(?:%s)$" % "|".join(re.escape(i) for i in m.A.opid), m.h_op), (r"add_external_resolver$", m.h_ext), (r"Future::poll$", m.A.h_poll)]
        m.I = m.A.I = new_interp(P, hs, seq_cap=5000, int_cap=10 ** 6, inline_display=True, budget=10 ** 6)
        m.I.on_drop = m.on_drop
        m.out, m.fail, m.badutf8, m.available = {}, None, False, True

    def rec(m, st, *ev):
        ns = st.fork()
        ns.G[("tr",)] = st.G.get(("tr",), ()) + (ev,)
        return ns

    def h_lock(m, I, site, name, callee, args, st):
        return [(("a", "FUTURE", "", (("a", "GUARD", "", ()),)), m.rec(st, "lock"))]

    def h_drop(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        return [(UNIT, m.rec(st, "unlock"))] if v == ("a", "GUARD", "", ()) else [(UNIT, st)]

    def on_drop(m, v, st):
        return m.rec(st, "unlock") if v == ("a", "GUARD", "", ()) else st

    def h_save(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        d = fields(m.P, v) if v[0] == "a" else {}
        return [(Err(FAILURE) if m.fail == "save" else Ok(UNIT), m.rec(st, "save", d.get("rdf_data_ntriples"), d.get("triple_count")))]

    def h_spec(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "s":
            return None
        return [(Err(FAILURE) if v[1].startswith("bad") else Ok(("a", "ARG", "", (v,))), st)]

    def h_utf8(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] == "s":
            return [(Ok(v), st)]
        if v[0] != "L" or any(x[0] != "i" for x in v[1]):
            return None
        try:
            return [(Ok(("s", bytes(x[1] for x in v[1]).decode())), st)]
        except UnicodeDecodeError:
            return [(Err(FAILURE), st)]

    def h_json(m, I, site, name, callee, args, st):
        return [(Err(FAILURE) if m.fail == "json" and I.deref(args[0], st)[1].startswith("rudof_mcp") else Ok(("a", "JSON", "", (I.deref(args[0], st),))), st)]

    def h_result(m, I, site, name, callee, args, st):
        k = name.split("::")[-1]
        v = I.deref(args[0], st)
        e = TRUE if k.endswith("error") else FALSE
        if k.startswith("structured"):
            return [(("a", CTR, "", (("L", ()), Some(v), Some(e), NONE)), st)]
        return [(("a", CTR, "", (v, NONE, Some(e), NONE)), st)]

    def h_content(m, I, site, name, callee, args, st):
        return [(("a", name.split("::")[-1].upper(), "", tuple(I.deref(a, st) for a in args)), st)]

    def h_ext(m, I, site, name, callee, args, st):
        v = m.A.pv(I.deref(args[-1], st), st)
        return [(Err(FAILURE) if str(v).startswith("bad") else Ok(UNIT), m.rec(st, "add_external_resolver", (("spec", v),)))]

    def h_op(m, I, site, name, callee, args, st):
        f = m.A.opid.get(callee[1]) or m.A.opid.get(name)
        if not f:
            return None
        want = p12.OPS[f.name]
        n = f.d["names"]
        skip = len(args) - len(want)
        have = [((n.get(str(i + 1)) if isinstance(n, dict) else n[i + 1]) or "").lstrip("_") for i in range(f.argc)][skip:]
        names = have if set(have) == set(want) else want
        vals = tuple(sorted((k, m.A.pv(I.deref(a, st), st)) for k, a in zip(names, args[skip:]) if k != "writer"))
        ns = m.rec(st, f.name, vals)
        bad = m.fail == f.name
        if "writer" in names and not bad:
            w = args[skip + names.index("writer")]
            if w[0] != "p":
                return None
            cell, proj = final_ptr(I, w, ns)
            old = I.read_cell(cell, proj, ns)
            if old[0] != "L":
                return None
            new = m.out.get(f.name, "OUT")
            new = new.encode() if isinstance(new, str) else new
            I.write_cell(cell, proj, ("L", old[1] + tuple(("i", b) for b in new)), ns)
        return [(Err(FAILURE) if bad else Ok(UNIT), ns)]

    def call(m, tool, **req):
        """the outcomes of calling the tool: [(result, trace)]"""
        P, I, A = m.P, m.I, m.A
        f = m.tools[tool]
        par = P.ty(f.crate, f.d["locals"][2] if isinstance(f.d["locals"][2], int) else f.d["locals"][2][0])
        adt = P.ty(f.crate, A.arg(par))["s"]
        a = P.adts[adt]
        val = ("a", adt, "", tuple(A.val(a["crate"], t, req.get(n)) for n, t in a["v"][0]["f"]))
        svc = ("a", SVC, "", tuple(I.sym("in", n) for n, _ in P.adts[SVC]["v"][0]["f"]))
        I.memo.clear(); I.steps = 0
        outs = I.exec_fn(f, (svc, ("a", PAR, "", (val,))), (), {}, (), ())
        res = []
        while outs:
            r, cells, G = outs.pop()
            if r[0] == "c" and r[1] in P.fns and P.fns[r[1]].kind == "coroutine":
                b = P.fns[r[1]]
                outs += I.exec_fn(b, (r,) + (T,) * (b.argc - 1), cells, G, (), ())
            else:
                res.append((r, G.get(("tr",), ())))
        return list(dict.fromkeys(res))



# ---- what each tool asks for, by its documentation ----

def same(*w):
    return {x: x for x in w}


RDF = same("turtle", "ntriples", "rdfxml", "jsonld", "trig", "nquads", "n3")
SPARQL = same("internal", "turtle", "ntriples", "csv", "trig", "n3", "nquads")
SPARQL.update({"json-ld": "jsonld", "rdf-xml": "rdfxml"})
MODES = same("outgoing", "incoming", "both")
SHACLF = same("turtle", "rdfxml", "jsonld", "trig", "nquads")
SHACLR = same("compact", "details", "minimal", "csv", "turtle", "ntriples", "rdfxml", "trig", "n3", "nquads")
SHACLS = same("severity", "node", "component", "value", "path", "sourceshape", "details")
ENGINE = same("native", "sparql")
SHEXI = same("shexc", "shexj")
SHEXO = same("shexc", "shexj", "json", "jsonld", "internal")
SHEXR = same("compact", "details", "json", "csv")
SHEXS = same("node", "shape", "status", "details")
BAD = "no-such-word"
QUERIES = {"SELECT * WHERE { ?s ?p ?o }": "select", "select * where { ?s ?p ?o }": "select", "PREFIX a: <http://a/> SELECT ?x { ?x a:p 1 }": "select",
           "SELECT(COUNT(*) AS ?n) { ?s ?p ?o }": "select", "SELECT*{?s ?p ?o}": "select", "# ask me\nSELECT * { ?s ?p ?o }": "select", "BASE <http://b#x>\nSELECT ?x { ?x <p> 1 }": "select",
           "ASK { ?s ?p ?o }": "ask", "ASK{?s ?p ?o}": "ask", "ask {SELECT ?x { ?x ?p ?o } }": "ask", "# select\nASK { ?s ?p ?o }": "ask", "PREFIX select: <http://a/>\nASK { ?s select:p ?o }": "ask",
           "CONSTRUCT { ?s ?p ?o } WHERE { ?s ?p ?o }": "construct", "CONSTRUCT{ ?s ?p ?o }WHERE{ SELECT ?s ?p ?o { ?s ?p ?o } }": "construct",
           "PREFIX a: <http://a/describe>\nCONSTRUCT WHERE { ?s a:describe ?o }": "construct", "DESCRIBE <http://a/x>": "describe", "describe <http://a/x>": "describe",
           "DESCRIBE<http://a/x>": "describe", "# a select\nDESCRIBE ?x { ?x ?p 1 }": "describe", "PREFIX ask: <http://a/>\nDESCRIBE ask:x": "describe"}


def word(ws, v):
    """the operation's value of an optional word: None when it is refused"""
    return (True, None) if v is None else (v.lower() in ws, ws.get(v.lower()))


def spec(t, r, out):
    """None (refused) or (operations, structured answer without the output, the field of the output)"""
    g = r.get
    n, nb = len(out), len(out.encode())
    ok = True

    def w(ws, v):
        nonlocal ok
        k, x = word(ws, v)
        ok = ok and k
        return x

    if t == "load_rdf_data_from_sources":
        f = w(RDF, g("data_format") or "turtle")
        d = tuple(g("data") or ())
        if not d and g("endpoint") is None or any(x.startswith("bad") for x in d):
            ok = False
        count = sum(1 for x in out.split("\n") if x.strip() and not x.strip().startswith("#"))
        ops = [("load_data", dict(data=d, data_format=f, base=g("base"), endpoint=g("endpoint"))), ("serialize_data", dict(result_data_format="ntriples"))]
        ans, field = dict(sources_count=len(d), format=g("data_format") or "turtle", triple_count=count), None
    elif t == "export_rdf_data":
        f = w(RDF, g("format") or "turtle")
        ops, ans, field = [("serialize_data", dict(result_data_format=f))], dict(format=g("format") or "turtle", size_bytes=nb), "data"
    elif t == "export_plantuml":
        ops, ans, field = [("serialize_data", dict(result_data_format="plantuml"))], dict(size=n), "plantuml_data"
    elif t == "export_image":
        f = w(same("svg", "png"), g("image_format"))
        ops, ans, field = [("serialize_data", dict(result_data_format=f))], dict(image_format=g("image_format"), mime_type={"svg": "image/svg+xml", "png": "image/png"}.get(f), size_bytes=nb), None
    elif t == "node_info":
        f = w(MODES, g("mode"))
        ops = [("show_node_info", dict(node=r["node"], predicates=tuple(g("predicates")) if g("predicates") is not None else None, depth=g("depth"), show_node_mode=f,
                                       iri_mode="strict" if g("strict_iris") else "lax", show_colors=False))]
        ans, field = dict(node=r["node"], mode=g("mode") or "both", parsed=ANY), "results"
    elif t == "execute_sparql_query":
        f = w(SPARQL, g("result_format"))
        q = g("query")
        if q is None or g("query_natural_language") is not None:
            return None
        k = QUERIES[q]
        if k == "describe" or k == "select" and f not in (None, "internal"):
            ok = False
        ops = [("load_sparql_query", dict(query=("Str", q))), ("run_query", {}), ("serialize_query_results", dict(result_query_format=f))]
        ans, field = dict(query=q, result_format=ANY if f else "internal", result_size_bytes=nb), "results"
    elif t == "validate_shacl":
        f, m, rf, so = w(SHACLF, g("shapes_format")), w(ENGINE, g("mode")), w(SHACLR, g("result_format")), w(SHACLS, g("sort_by"))
        ok = ok and not (g("shapes") or "").startswith("bad")
        ops = [("load_shacl_schema", dict(schema=g("shapes"), schema_format=f, base=g("base"))), ("validate_shacl", dict(mode=m)),
               ("serialize_shacl_validation_results", dict(result_shacl_validation_format=rf, shacl_validation_sort_order_mode=so))]
        ans, field = dict(result_format=ANY if rf else "details", sort_by=ANY if so else "severity", result_size_bytes=nb), "results"
    elif t == "show_shex":
        f, rf = w(SHEXI, g("schema_format")), w(SHEXO, g("result_schema_format"))
        ok = ok and not r["schema"].startswith("bad")
        ops = [("load_shex_schema", dict(schema=r["schema"], schema_format=f, base_schema=g("base_schema"))),
               ("serialize_shex_schema", dict(shape_label=g("shape"), shex_format=rf, show_schema=True, show_dependencies=True, show_statistics=True))]
        ans, field = dict(result_format=ANY if rf else "shexc", result_size_bytes=nb), "results"
    elif t == "check_shex":
        f = w(SHEXI, g("schema_format"))
        ok = ok and not r["schema"].startswith("bad")
        ops = [("check_shex_schema", dict(schema=r["schema"], schema_format=f, base_schema=g("base_schema")))]
        ans, field = {}, "result"
    else:
        f, mf, rf, so = w(SHEXI, g("schema_format")), w(same("compact"), g("shapemap_format")), w(SHEXR, g("result_format")), w(SHEXS, g("sort_by"))
        sm = g("shapemap")
        if sm is None:
            if g("maybe_node") is None:
                return None
            sm = "%s@%s" % (iri(g("maybe_node"), g("strict_iris")), iri(g("maybe_shape"), g("strict_iris")) if g("maybe_shape") is not None else "START")
        ok = ok and not r["schema"].startswith("bad") and not sm.startswith("bad")
        ext = tuple(g("external_resolvers") or ())
        ops = [("add_external_resolver", dict(spec=x)) for x in ext]
        ops += [("load_shex_schema", dict(schema=r["schema"], schema_format=f, base_schema=g("base_schema"))),
                ("load_shapemap", dict(shapemap=sm, shapemap_format=mf, base_nodes=g("base_data"), base_shapes=g("base_schema"))), ("validate_shex", {}),
                ("serialize_shex_validation_results", dict(sort_order=so, result_shex_validation_format=rf))]
        ans, field = dict(result_format=ANY if rf else "details", sort_by=ANY if so else "node", result_size_bytes=nb), "results"
        if ok and any(x.startswith("bad") for x in ext):
            return ("failing", ops[:[x.startswith("bad") for x in ext].index(True) + 1])
    return (ops, ans, field) if ok else None


ANY = object()
NOWORD = ("reader_mode", "merge", "prefixes", "show_hyperlinks", "show_colors", "show_time", "query_type", "result_query_format")


def iri(x, strict):
    x = x.strip()
    return x if strict or x[:1] in "<_{" or "://" not in x else "<%s>" % x


def sees(m, r):
    """a result as (kind, structured, texts, media)"""
    if r[0] != "a" or r[2] not in ("Ok", "Err"):
        return ("?" + m.I.show(r)[:120],)
    if r[2] == "Err":
        return ("error",)
    v = r[3][0]
    if v[0] != "a" or v[1] != CTR:
        return ("?" + m.I.show(v)[:120],)
    content, st, err = v[3][0], v[3][1], v[3][2]
    texts = tuple(x[3][0][1] if x[3][0][0] == "s" else m.I.show(x[3][0]) for x in content[1] if x[0] == "a" and x[1] == "TEXT") if content[0] == "L" else ()
    media = tuple(x[3] for x in content[1] if x[0] == "a" and x[1] == "IMAGE") if content[0] == "L" else ()
    if err[2] == "Some" and err[3][0] == TRUE:
        return ("tool error", None, texts, media)
    if err[2] != "None" and err != Some(FALSE):
        return ("?" + m.I.show(err)[:60],)
    return ("ok", st[3][0][3][0] if st[2] == "Some" and st[3][0][1] == "JSON" else None, texts, media)


def differs(m, got, want, name):
    """how the recorded operation differs from the wanted one"""
    op, vals = got[0], dict(got[1])
    if op != want[0]:
        return "%s instead of %s" % (op, want[0])
    for k in p12.OPS.get(op, ()) + (("spec",) if op == "add_external_resolver" else ()):
        if k == "writer":
            continue
        a, b = vals.get(k), want[1].get(k)
        if k not in want[1] and k in NOWORD:
            b = a if a in (None, False) or k == "reader_mode" and a == "strict" else None
        if (a or None) != (b or None) or isinstance(a, bool) != isinstance(b, bool) and (a or b):
            return "%s with %s = %r instead of %r" % (op, k, a, b)
    return None


OUT = "ligne é\nsecond line\n"
LONG = "x" * 1199 + "é" + "tail of the text"
TRIPLES = "<http://a/s> <http://a/p> \"é\" .\n# not one\n\n  \n<http://a/s> <http://a/q> <http://a/o> .\n_:b <http://a/q> \"#\" ."
WRITERS = {"load_rdf_data_from_sources": "serialize_data", "export_rdf_data": "serialize_data", "export_plantuml": "serialize_data", "export_image": "serialize_data", "node_info": "show_node_info",
           "execute_sparql_query": "serialize_query_results", "validate_shacl": "serialize_shacl_validation_results", "show_shex": "serialize_shex_schema", "check_shex": "check_shex_schema",
           "validate_shex": "serialize_shex_validation_results"}
FIELDS = {
    "load_rdf_data_from_sources": dict(data=[None, [], ["a.ttl"], ["a.ttl", "b.ttl"], ["a.ttl", "bad.ttl"], ["bad.ttl", "a.ttl"]], data_format=[None, *RDF, "TURTLE", BAD], base=[None, "http://b/"],
                                       endpoint=[None, "http://e/sparql"]),
    "export_rdf_data": dict(format=[None, *RDF, "NTriples", BAD]), "export_plantuml": {}, "export_image": dict(image_format=["svg", "png", "SVG", "turtle", BAD]),
    "node_info": dict(node=["http://a/n", ":n"], predicates=[None, [], ["http://a/p", "http://a/q"]], depth=[None, 0, 3], mode=[None, *MODES, BAD], strict_iris=[None, True, False]),
    "execute_sparql_query": dict(query=[None, *QUERIES], query_natural_language=[None, "all"], result_format=[None, *SPARQL, BAD]),
    "validate_shacl": dict(shapes=[None, "s.ttl", "bad"], shapes_format=[None, *SHACLF, BAD], base=[None, "http://b/"], mode=[None, *ENGINE, BAD], result_format=[None, *SHACLR, "json", BAD], sort_by=[None, *SHACLS, BAD]),
    "show_shex": dict(schema=["s.shex", "bad"], schema_format=[None, *SHEXI, "turtle", BAD], base_schema=[None, "http://b/"], shape=[None, ":S"], result_schema_format=[None, *SHEXO, "turtle", BAD]),
    "check_shex": dict(schema=["s.shex", "bad"], schema_format=[None, *SHEXI, "rdfxml", BAD], base_schema=[None, "http://b/"]),
    "validate_shex": dict(schema=["s.shex", "bad"], schema_format=[None, *SHEXI, "n3", BAD], base_schema=[None, "http://b/"], base_data=[None, "http://d/"],
                          maybe_node=[None, "http://a/n", ":n", "<http://a/n>", " http://a/n ", "_:b", "{FOCUS a http://c}"], maybe_shape=[None, "http://a/S", ":S"], shapemap=[None, ":a@:S", "bad"],
                          shapemap_format=[None, "compact", "json", BAD], result_format=[None, *SHEXR, "turtle", BAD], sort_by=[None, *SHEXS, BAD], strict_iris=[None, True, False],
                          external_resolvers=[None, [], ["reject-all"], ["schema:a", "reject-all"], ["reject-all", "bad", "schema:a"]]),
}
USUAL = {"load_rdf_data_from_sources": dict(data=["a.ttl"]), "node_info": dict(node=":n"), "execute_sparql_query": dict(query="ASK { ?s ?p ?o }"), "show_shex": dict(schema="s.shex"),
         "check_shex": dict(schema="s.shex"), "validate_shex": dict(schema="s.shex", maybe_node="http://a/n"), "export_image": dict(image_format="svg")}
FULL = {"load_rdf_data_from_sources": dict(data=["a.ttl", "b.ttl"], data_format="nquads", base="http://b/", endpoint="http://e/sparql"), "node_info": dict(node="http://a/n", predicates=["http://a/p"], depth=2, mode="incoming", strict_iris=True),
        "validate_shacl": dict(shapes="s.ttl", shapes_format="trig", base="http://b/", mode="sparql", result_format="csv", sort_by="path"), "export_rdf_data": dict(format="nquads"), "export_image": dict(image_format="png"),
        "execute_sparql_query": dict(query="CONSTRUCT { ?s ?p ?o } WHERE { ?s ?p ?o }", result_format="trig"), "check_shex": dict(schema="s.shex", schema_format="shexj", base_schema="http://b/"),
        "show_shex": dict(schema="s.shex", schema_format="shexj", base_schema="http://b/", shape=":S", result_schema_format="json"),
        "validate_shex": dict(schema="s.shex", schema_format="shexj", base_schema="http://b/", base_data="http://d/", maybe_node="http://a/n", maybe_shape="http://a/S", shapemap=":a@:S", shapemap_format="compact",
                              result_format="csv", sort_by="status", strict_iris=True, external_resolvers=["schema:a", "reject-all"])}


def requests(t):
    """every field over its values, alone and together with every other field's"""
    fs = FIELDS[t]
    seen = []
    for base in (USUAL.get(t, {}), FULL.get(t, {})):
        for k, vs in fs.items():
            for v in vs:
                r = dict(base, **{k: v})
                if r not in seen:
                    seen.append(r)
    ks = list(fs)
    pick = {k: [vs[0], vs[1]] + ([vs[-1]] if len(vs) > 2 else []) for k, vs in fs.items() if len(vs) > 1}
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            for x in pick.get(a, fs[a]) if t != "execute_sparql_query" else fs[a]:
                for y in pick.get(b, fs[b]) if t != "execute_sparql_query" else fs[b]:
                    r = dict(USUAL.get(t, {}), **{a: x, b: y})
                    if r not in seen:
                        seen.append(r)
    return seen or [{}]


def show(r):
    return ", ".join("%s=%s" % (k, v) for k, v in r.items() if v is not None) or "nothing given"


def check(m, c, t, r, out=OUT, fail=None):
    """one request: the list of what differs, by rule"""
    m.out = {WRITERS[t]: out}
    m.fail = fail
    text = out if isinstance(out, str) else ""
    want = spec(t, r, text)
    bad = {"ask": [], "answer": [], "refuse": [], "fail": [], "state": []}
    outs = m.call(t, **r)
    if len(outs) != 1:
        return {k: ["%d outcomes" % len(outs)] for k in bad}
    got = sees(m, outs[0][0])
    tr = outs[0][1]
    ops = [e for e in tr if e[0] not in ("lock", "unlock", "save")]
    saved = [e[1:] for e in tr if e[0] == "save"]
    held = False
    for e in tr:
        if e[0] == "lock":
            if held:
                bad["state"].append("the session is locked while it is locked: the call never ends")
            held = True
        elif e[0] == "unlock":
            held = False
        elif e[0] == "save" and not held:
            bad["state"].append("the data is saved without the session's lock: it can replace what a later call saved")
        elif e[0] not in ("save", "add_external_resolver") and not held:
            bad["state"].append("%s runs without the session's lock" % e[0])
    failed = got[0] in ("error", "tool error")
    if want is None:
        if not failed:
            bad["refuse"].append("is accepted (%s)" % got[0])
        if ops or saved:
            bad["refuse"].append("asks for %s before it is refused" % (ops or ["save"])[0][0])
        return bad
    if want[0] == "failing":
        wops, cut = want[1], len(want[1])
    else:
        wops = want[0]
        cut = next((i + 1 for i, (o, _) in enumerate(wops) if o == fail), None)
    if cut is not None or isinstance(out, bytes):
        wops = wops[:cut]
        if not failed:
            bad["fail"].append("%s fails and the call answers %s" % (fail or "a resolver", got[0]))
        if saved:
            bad["fail"].append("what a failed call left is saved")
        if [o[0] for o in ops] != [o[0] for o in wops]:
            bad["fail"].append("asks for %s" % [o[0] for o in ops])
        return bad
    if fail == "json":
        if not failed:
            bad["fail"].append("the answer cannot be built and the call answers %s" % got[0])
        return bad
    for i in range(max(len(ops), len(wops))):
        d = "%s is not asked" % wops[i][0] if i >= len(ops) else "%s is asked too" % ops[i][0] if i >= len(wops) else differs(m, ops[i], wops[i], t)
        if d:
            bad["ask"].append(d)
            break
    if got[0] != "ok":
        bad["answer"].append("answers %s %s" % (got[0], (got[2] if len(got) > 2 else "")))
        return bad
    _, st, texts, media = got
    ans, field = want[1], want[2]
    if st is None:
        bad["answer"].append("has no structured answer")
    else:
        adt = m.P.adts.get(st[1])
        have = {n: m.A.pv(x, None) if n != "parsed" else x for (n, _), x in zip(adt["v"][0]["f"], st[3])} if adt else {}
        exp = dict(ans, **({field: text} if field else {}))
        for k, v in exp.items():
            if k not in have:
                bad["answer"].append("has no %s" % k)
            elif v is not ANY and have[k] != v:
                bad["answer"].append("has %s %r instead of %r" % (k, have[k] if not isinstance(have[k], str) else have[k][:60], v if not isinstance(v, str) else v[:60]))
    if field and len(text) <= 1000 and not any(text.rstrip() in x for x in texts):
        bad["answer"].append("its text does not hold the output")
    if t == "export_image" and (len(media) != 1 or media[0][0] != ("a", "B64", "", (("L", tuple(("i", b) for b in text.encode())),)) or media[0][1] != ("s", ans["mime_type"])):
        bad["answer"].append("does not hold the image")
    if t == "load_rdf_data_from_sources":
        if saved != [(Some(("s", text)), Some(("i", ans["triple_count"])))]:
            bad["state"].append("what is saved is not the data after the call" if saved else "the data is not saved")
    elif saved:
        bad["state"].append("saves")
    return bad


RULES = [("ask", "the operations a tool call asks for, in order, with the value of every parameter, against the tool's documentation"),
         ("answer", "the answer: not an error, the library's output complete in the structured answer with its size, and in the text"),
         ("refuse", "a request that the documentation rules out is answered by an error and asks the library for nothing"),
         ("fail", "an operation that fails makes the call fail and ends it"),
         ("state", "every operation runs under the session's lock, taken once; loaded data is saved, with its count, before the lock is released")]


def _work(job):
    t, r, out, fail = job
    try:
        return job, check(MOD, None, t, r, out, fail)
    except Exception as e:
        return job, {k: ["not decided: %s" % str(e)[:160]] for k, _ in RULES}


def tree(arcs, sep):
    """the arcs of a node as the library draws them: [(predicate, target, arcs below)]"""
    def draw(arcs, pre):
        for i, (p, o, sub) in enumerate(arcs):
            last = i == len(arcs) - 1
            yield "%s%s─── %s %s %s" % (pre, "└" if last else "├", p, sep, o)
            yield from draw(sub, pre + ("   " if last else "│   "))
    return "\n".join(draw(arcs, "")) + "\n"


def flat(arcs, d=0):
    for p, o, sub in arcs:
        yield (p, o, d)
        yield from flat(sub, d + 1)


TREES = [[], [(":p", ":b", [])], [(":p", ":b", []), (":p", ":c", []), (":q", ":b", [])], [(":p", ":b", [(":q", ":c", [])])], [(":p", ":b", [(":q", ":c", [(":r", ":d", [(":s", ":e", [])])]), (":q", ":f", [])]), (":r", "\"a b\"@en", [])],
         [(":p", ":b", []), (":p", ":c", [(":q", ":d", [(":q", ":e", []), (":r", ":f", [])])])], [("<http://a/p>", "\"─► x\"", []), ("a", "_:b0", [(":q", "\"2\"^^xsd:integer", [])])]]


def arcs(c, m):
    rid = c.rule("arcs", "node_info's parsed arcs, depths and counts are those of the tree the library draws")
    n = 0
    for o in TREES:
        for i in TREES[:4] + TREES[5:6]:
            text = ""
            if o:
                text += "Outgoing arcs\n:a\n" + tree(o, "─►") + "\n"
            if i:
                text += "Incoming arcs\n:a\n▲\n" + tree(i, "──") + "\n"
            m.out, m.fail = {"show_node_info": text}, None
            outs = m.call("node_info", node=":a")
            got = sees(m, outs[0][0]) if len(outs) == 1 else ("?",)
            fo, fi = list(flat(o)), list(flat(i))
            want = (tuple(fo), tuple(fi), (len(fo), len(fi), len({x[0] for x in fo}), len({x[0] for x in fi}), len({x[1] for x in fo}), len({x[1] for x in fi})))
            v = None
            if got[0] == "ok" and got[1] is not None:
                d = fields(m.P, got[1])
                d = fields(m.P, d["parsed"])
                s = fields(m.P, d["stats"])
                li = lambda x: tuple(tuple(fields(m.P, y)[k][1] for k in ("predicate", "target", "depth")) for y in x[1])
                v = (li(d["outgoing_arcs"]), li(d["incoming_arcs"]), tuple(s[k][1] for k in ("outgoing_arcs_count", "incoming_arcs_count", "outgoing_predicates_count", "incoming_predicates_count", "unique_outgoing_targets_count", "unique_incoming_sources_count")))
            c.ob(rid, "node_info: %d outgoing, %d incoming, depth %d" % (len(fo), len(fi), max([x[2] for x in fo + fi], default=0)), m.tools["node_info"].where(), v == want, "the tree\n%s is answered as %s instead of %s" % (text, v, want))
            n += 1
    c.floor(rid, n, "trees")


def run(c):
    global MOD
    P = c.prog
    MOD = m = M(P)
    ids = {k: c.rule(k, w) for k, w in RULES}
    for t in FIELDS:
        if not c.anchor(ids["ask"], "tool " + t, [m.tools[t]] if t in m.tools else [], "the service's method %s" % t):
            return
    jobs = []
    for t in FIELDS:
        out = TRIPLES if t == "load_rdf_data_from_sources" else OUT
        jobs += [(t, r, out, None) for r in requests(t)]
        for base in (USUAL.get(t, {}), FULL.get(t, USUAL.get(t, {}))):
            w = spec(t, base, out)
            jobs += [(t, base, o, None) for o in ("", LONG, b"\xff\xfe" if t != "export_image" else "")]
            jobs += [(t, base, out, o) for o, _ in w[0] if o != "add_external_resolver"] + [(t, base, out, "json")]
    import os
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=mp.get_context("fork")) as ex:
        res = list(ex.map(_work, jobs, chunksize=16))
    n = {k: 0 for k, _ in RULES}
    for (t, r, out, fail), bad in res:
        kind = "output not text, " if isinstance(out, bytes) else "no output, " if out == "" else "long output, " if out == LONG else ""
        key = "%s: %s%s%s" % (t, kind, fail + " fails, " if fail else "", show(r))
        w = spec(t, r, out if isinstance(out, str) else "")
        failing = fail or isinstance(out, bytes) or w and w[0] == "failing"
        for k in (("refuse",) if w is None else ("fail",) if failing else ("ask", "answer", "state")):
            if k == "state" or bad["state"]:
                pass
            n[k] += 1
            b = bad[k] + (bad["state"] if k in ("refuse", "fail") else [])
            c.ob(ids[k], key, m.tools[t].where(), not b, "%s %s" % (t, "; ".join(b)))
    for k, _ in RULES:
        c.floor(ids[k], n[k], "requests")
    arcs(c, m)
