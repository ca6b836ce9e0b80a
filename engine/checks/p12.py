"""P12: what the command line says is what the library is asked. Every command's execute is interpreted (its arguments chosen from a grid, the
library's operations recorded instead of run) and the operations it asks for, with the value of every parameter, are compared with the ones the
command documents."""
import itertools, re
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.natives import POLL
from vf.table import *

TITLE = "A command line asks the library for what it names, with the values given"
IMPL = r"^rudof_lib::api::\w+::implementations::(?:\w+::)?\w+$"
OPS = {
    "show_schema_comparison": "schema1 schema2 base1 base2 reader_mode format1 format2 mode1 mode2 shape1 shape2 show_time result_format writer",
    "show_schema_conversion": "schema base reader_mode input_mode output_mode input_format output_format shape show_time templates_folder output_folder writer",
    "config": "", "dereference": "uri reader_mode merge", "load_data": "data data_format base endpoint reader_mode merge prefixes",
    "load_data_via_qlever": "data data_format base prefixes", "load_service_description": "service data_format reader_mode base",
    "serialize_data": "result_data_format writer", "serialize_service_description": "result_service_format writer",
    "show_node_info": "node predicates show_node_mode depth show_hyperlinks show_colors iri_mode writer",
    "load_dctap": "dctap dctap_format", "serialize_dctap": "result_dctap_format writer",
    "generate_data": "schema schema_format result_generation_format output config_file number_entities seed parallel",
    "load_map_state": "path", "serialize_map_state": "writer", "materialize": "initial_node_iri result_format writer",
    "load_pgschema": "pg_schema pg_schema_format", "load_typemap": "typemap", "serialize_pgschema": "result_pg_schema_format writer",
    "serialize_pgschema_validation_results": "result_pg_schema_validation_format show_colors writer", "validate_pgschema": "",
    "load_sparql_query": "query query_type", "run_query": "result_query_format", "serialize_query_results": "result_query_format writer",
    "serialize_sparql_query": "writer", "load_rdf_config": "rdf_config rdf_config_format", "serialize_rdf_config": "result_rdf_config_format writer",
    "load_shacl_schema": "schema schema_format base reader_mode", "serialize_shacl_schema": "shacl_format writer",
    "serialize_shacl_validation_results": "shacl_validation_sort_order_mode result_shacl_validation_format writer", "validate_shacl": "mode",
    "add_node_shape_to_shapemap": "node shape base_nodes base_shapes iri_mode", "compile_shex_schema_to_file": "writer",
    "load_shapemap": "shapemap shapemap_format base_nodes base_shapes", "load_shex_schema": "schema schema_format base_schema reader_mode",
    "load_shex_schema_precompiled": "schema reader_mode", "serialize_shapemap": "shapemap_format show_colors writer",
    "serialize_shex_schema": "shape_label show_schema show_statistics show_dependencies show_time show_colors shex_format writer",
    "serialize_shex_validation_results": "sort_order result_shex_validation_format writer", "validate_shex": "",
    "reset_all": "", "reset_data": "", "reset_service_description": "", "reset_dctap": "", "reset_pgschema": "", "reset_pgschema_validation": "",
    "reset_typemap": "", "reset_query_results": "", "reset_sparql_query": "", "reset_rdf_config": "", "reset_shacl_schema": "", "reset_shacl_validation": "",
    "reset_shapemap": "", "reset_shex": "", "reset_shex_schema": "", "list_endpoints": "", "prefixes": "", "version": "",
    "add_prefix": "alias iri", "copy_prefix": "old_alias new_alias", "remove_prefix": "alias", "rename_prefix": "old_alias new_alias",
    "check_shex_schema": "schema schema_format base_schema writer", "update_config": "config", "new": "config",
}
OPS = {k: tuple(v.split()) for k, v in OPS.items()}
# what an operation touches: +x writes it, x reads it
TOUCH = {"load_data": "+data", "load_data_via_qlever": "+data", "dereference": "+data", "serialize_data": "data +out", "show_node_info": "data +out",
         "load_service_description": "+service", "serialize_service_description": "service +out", "load_dctap": "+dctap", "serialize_dctap": "dctap +out",
         "load_map_state": "+map", "serialize_map_state": "map +out2", "materialize": "map shex +out", "load_pgschema": "+pg", "load_typemap": "+tm",
         "serialize_pgschema": "pg +out", "validate_pgschema": "pg tm data +pgres", "serialize_pgschema_validation_results": "pgres +out",
         "load_sparql_query": "+query", "run_query": "query data +qres", "serialize_query_results": "qres +out", "serialize_sparql_query": "query +out",
         "load_rdf_config": "+rdfc", "serialize_rdf_config": "rdfc +out", "load_shacl_schema": "data +shacl", "serialize_shacl_schema": "shacl +out",
         "validate_shacl": "data shacl +shres", "serialize_shacl_validation_results": "shres +out", "load_shex_schema": "ext +shex", "load_shex_schema_precompiled": "ext +shex",
         "compile_shex_schema_to_file": "shex", "load_shapemap": "data shex +sm", "add_node_shape_to_shapemap": "data shex +sm", "serialize_shapemap": "sm +out",
         "serialize_shex_schema": "shex +out", "validate_shex": "data shex sm ext +sxres +map", "serialize_shex_validation_results": "sxres +out", "add_external_resolver": "+ext"}
CMD = "rudof_cli::commands::base::Command"
CTXA = "rudof_cli::commands::base::CommandContext"
PV = "clap_builder::PossibleValue"


class M:
    def __init__(m, P):
        m.P = P
        m.ops = {}
        for f in P.fns.values():
            if f.kind == "fn" and re.search(IMPL, f.id) and f.name in OPS and f.argc == len(OPS[f.name]) + 1 - (f.name == "new"):
                m.ops.setdefault(f.name, []).append(f)
        m.opid = {f.id: f for fs in m.ops.values() for f in fs}
        ident = lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]
        pvn = lambda I, s, n, cc, a, st: [(I.deref(a[0], st)[3][0], st)] if I.deref(a[0], st)[:2] == ("a", PV) else None
        hs = [(r"^(?:%s)$" % "|".join(re.escape(i) for i in m.opid), m.h_op), (r"PossibleValue::new$", lambda I, s, n, cc, a, st: [(("a", PV, "", (I.deref(a[0], st),)), st)]),
              (r"PossibleValue::get_name$", pvn), (r"PossibleValue::(help|alias|aliases|hide)$", ident),
              (r"(^|::)fs::(File::create|OpenOptions::open)|File::(create|create_new|options)$", lambda I, s, n, cc, a, st: [(Ok(("a", "FILE", "", (m.path(I, a[0], st),))), st)]),
              (r"BufWriter::(?:<.*>::)?(new|with_capacity)$", lambda I, s, n, cc, a, st: [(I.deref(a[-1], st), st)]),
              (r"(::flush|::write_fmt|::write_all)$", lambda I, s, n, cc, a, st: None if I.deref(a[0], st)[0] == "s" else [(Ok(UNIT), st)]),
              (r"(with_context|::context)$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]),
              (r"anyhow::(?:\w+::)*Ok$", lambda I, s, n, cc, a, st: [(Ok(I.deref(a[0], st)), st)]),
              (r"runtime::(?:\w+::)*Runtime::new$|Builder::build$", lambda I, s, n, cc, a, st: [(Ok(I.sym("in", "runtime")), st)]),
              (r"Future::poll$", m.h_poll), (r"Runtime::block_on|Handle::block_on", m.h_block),
              (r"Rudof::(?:\w+::)*(has_data|has_sparql_query|query_results)$", m.h_has), (r"add_external_resolver$", m.h_ext), (r"server_impl::run_mcp$", m.h_mcp),
              (r"Rudof::new$", lambda I, s, n, cc, a, st: [(("a", "RUDOF", "", ()), st)]), (r"Shell::generate$|clap_complete::.*generate$", m.h_gen),
              (r"to_toml_string$", lambda I, s, n, cc, a, st: [(Ok(("s", "CONFIG")), st)])]
        m.I = new_interp(P, hs, seq_cap=64, int_cap=10 ** 6, inline_display=True)
        m.has = {}
        m.fail = None
        m.names = {}        # per struct of arguments: its field -> the option it is documented as

    def path(m, I, v, st):
        return I.deref(v, st)

    def rec(m, st, op, vals):
        ns = st.fork()
        ns.G[("calls",)] = st.G.get(("calls",), ()) + ((op, vals),)
        return ns

    def h_op(m, I, site, name, callee, args, st):
        f = m.opid.get(callee[1]) or m.opid.get(name)
        if not f:
            return None
        want = OPS[f.name]
        n = f.d["names"]
        skip = len(args) - len(want)
        have = [((n.get(str(i + 1)) if isinstance(n, dict) else n[i + 1]) or "").lstrip("_") for i in range(f.argc)][skip:]
        names = have if set(have) == set(want) else want
        ns = m.rec(st, f.name, tuple(sorted((k, m.pv(I.full(a, st) if hasattr(I, "full") else I.deref(a, st), st)) for k, a in zip(names, args[skip:]))))
        r = Err(("s", "failed")) if m.fail == f.name else Ok(UNIT)
        later = m.P.fns.get(f.id + "::{closure#0}")
        return [(("a", "FUTURE", "", (r,)) if later and later.kind == "coroutine" else r, ns)]

    def h_poll(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        for _ in range(3):
            if v[0] == "a" and v[1] == "FUTURE":
                return [(("a", POLL, "Ready", (v[3][0],)), st)]
            v = I.deref(v[3][0], st) if v[0] == "a" and len(v[3]) == 1 else T
        return None

    def h_has(m, I, site, name, callee, args, st):
        k = name.split("::")[-1]
        v = m.has.get(k, False)
        return [((Some(("s", "results")) if v else NONE) if k == "query_results" else ("b", v), st)]

    def h_ext(m, I, site, name, callee, args, st):
        return [(Err(("s", "failed")) if m.fail == "add_external_resolver" else Ok(UNIT), m.rec(st, "add_external_resolver", (("spec", m.pv(I.deref(args[-1], st), st)),)))]

    def h_mcp(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        fs = m.P.adts[v[1]]["v"][0]["f"] if v[0] == "a" and v[1] in m.P.adts else []
        return [(Err(("s", "failed")) if m.fail == "run_mcp" else Ok(UNIT), m.rec(st, "run_mcp", tuple(sorted((k, m.pv(I.deref(x, st), st)) for (k, _), x in zip(fs, v[3])))))]

    def h_gen(m, I, site, name, callee, args, st):
        return [(UNIT, m.rec(st, "completion", (("shell", m.pv(I.deref(args[0], st), st)), ("writer", m.pv(I.deref(args[-1], st), st)))))]

    def h_block(m, I, site, name, callee, args, st):
        v = I.deref(args[-1], st)
        if v[0] == "c" and m.P.fns[v[1]].kind == "coroutine":
            outs = I.exec_fn(m.P.fns[v[1]], (("p", -1, ()),), (v,), st.G, (), ())
            r = []
            for ret, cells, G in outs:
                ns = st.fork(); ns.G = dict(G) if not isinstance(G, dict) else dict(G)
                r.append((ret, ns))
            return r
        return [(v, st)]

    def pv(m, v, st):
        """a value as Python: options opened, enum variants by their lower-case name"""
        I = m.I
        v = I.deref(v, st)
        if v[0] == "a":
            if v[1] == "ARG":
                return v[3][0][1]
            if v[1] == "FILE":
                return "file:" + str(m.pv(v[3][0], st))
            if v[2] in ("Some", "None") and "option" in v[1].lower():
                return None if v[2] == "None" else m.pv(v[3][0], st)
            if v[2] and not v[3]:
                return v[2].lower()
            return (v[2] or v[1].split("::")[-1],) + tuple(m.pv(x, st) for x in v[3])
        if v[0] in ("L", "t"):
            return tuple(m.pv(x, st) for x in v[1])
        if v[0] in ("s", "b", "i"):
            return v[1]
        if v[0] == "y":
            t = I.tag(v)
            if isinstance(t, tuple) and len(t) == 2 and t[0] == "in":
                return t[1]
        return "?" + I.show(v)[:120]

    def val(m, crate, tid, x):
        """the abstract value of an argument field of type tid that holds the Python value x"""
        P = m.P
        t = P.ty(crate, tid)
        s = t["s"]
        if s.startswith("core::option::Option<"):
            return NONE if x is None else Some(m.val(crate, m.arg(t), x))
        if s.startswith("alloc::vec::Vec<"):
            return ("L", tuple(m.val(crate, m.arg(t), y) for y in x))
        if s == "bool":
            return ("b", bool(x))
        if s in ("usize", "u64", "u16", "u32", "u8", "isize", "i64"):
            return ("i", x)
        if s.endswith("InputSpec"):
            return ("a", "ARG", "", (("s", x),))
        a = P.adts.get(s)
        if a and a["k"] == "enum" and not s.endswith("::Shell") or a and a["k"] == "enum" and a.get("local"):
            n = x if isinstance(x, str) else x[0]
            return ("a", s, n, tuple(("s", y) for y in (x[1:] if isinstance(x, tuple) else ())))
        if a and a["k"] == "struct" and isinstance(x, dict):
            return ("a", s, "", tuple(m.val(cr, t2, x[n]) for n, cr, t2, _ in m.field_types(s)))
        return ("s", x)

    def arg(m, t):
        return t["a"][0] if t.get("a") else t["m"][0]

    def field_types(m, adt):
        a = m.P.adts[adt]
        ren = m.names.get(adt, {})
        return [(ren.get(n, n), a["crate"], t, m.P.ty(a["crate"], t)["s"]) for n, t in a["v"][0]["f"]]

    def variants(m, s):
        s = re.sub(r"^core::option::Option<(.*)>$", r"\1", s)
        a = m.P.adts.get(s)
        return [v["n"] for v in a["v"]] if a and a["k"] == "enum" and all(not v["f"] for v in a["v"]) else None

    def default(m, n, s, on):
        """a value for the field n of type s: the present one (on) or the absent one"""
        if s.startswith("core::option::Option<"):
            return m.default(n, s[len("core::option::Option<"):-1], True) if on else None
        if s.startswith("alloc::vec::Vec<"):
            return (n + "-1", n + "-2") if on else ()
        if s == "bool":
            return on
        if s in ("usize", "u64", "u16", "u32", "u8", "isize", "i64"):
            return sum(map(ord, n)) % 900 + 1
        if s.endswith("InputSpec"):
            return n
        if s.endswith("BackendKindCli"):
            return ("Endpoint", "other-endpoint")
        vs = m.variants(s)
        if vs:
            return vs[0]
        a = m.P.adts.get(s)
        if a and a["k"] == "struct" and a.get("local") and "::parser::" in s:
            return {k: m.default(k, s2, on if k != "backend" else False) for k, _, _, s2 in m.field_types(s)}
        return n

    def run(m, f, cmd, row):
        """the outcomes of executing the command with these arguments: a set of (result, operations)"""
        P, I = m.P, m.I
        a = P.adts[cmd]
        self_ = ("a", cmd, "", tuple(m.val(a["crate"], t, row) for n, t in a["v"][0]["f"]))
        ctx = ("a", CTXA, "", tuple(("a", "RUDOF", "", ()) if n == "rudof" else I.sym("in", n) for n, _ in P.adts[CTXA]["v"][0]["f"]))
        I.memo.clear(); I.steps = 0
        outs = I.exec_fn(f, (self_, ("p", -1, ())), (ctx,), {}, (), ())
        return {(ret[2] if ret[0] == "a" and ret[2] in ("Ok", "Err") else "?" + I.show(ret)[:80], G.get(("calls",), ())) for ret, cells, G in outs}


# ---- what each command asks for ----

def low(x):
    return x.lower() if isinstance(x, str) else x


def backend(r):
    c = r["common"]
    if c["endpoint"] is not None:
        return ("endpoint", c["endpoint"])
    b = c["backend"]
    if b is None or b == "Memory":
        return ("memory", None)
    if b == "Qlever":
        return ("qlever", None)
    return ("endpoint", b[1])


def loading(r, base, prefixes=()):
    kind, url = backend(r)
    if not r["data"] and kind != "endpoint":
        return []
    d = dict(data=r["data"] or None, data_format=low(r["data_format"]), base=base, prefixes=prefixes or None)
    if kind == "qlever":
        return [("load_data_via_qlever", d)]
    return [("load_data", dict(d, endpoint=url, reader_mode=low(r["reader_mode"])))]


def iri(r):
    return "strict" if r["strict_iris"] else "lax"


def s_data(r, has):
    return loading(r, r["base"], r["prefixes"]) + [("serialize_data", dict(result_data_format=low(r["result_format"]), writer="writer"))]


def s_query(r, has):
    f = low(r["result_query_format"])
    f = "internal" if f == "asciitable" else f      # the same table by its two names
    out = loading(r, r["base"])
    if r["query"] is not None:
        out += [("load_sparql_query", dict(query=r["query"], query_type=low(r["query_type"]))), ("run_query", dict(result_query_format=f))]
    elif not has.get("query_results"):
        if not has.get("has_sparql_query"):
            return None
        out += [("run_query", dict(result_query_format=f))]
    return out + [("serialize_query_results", dict(result_query_format=f, writer="writer"))]


def s_node(r, has):
    out = loading(r, r["base"])
    if not out and not has.get("has_data"):
        n = r["node"].strip()
        n = n[1:-1] if n.startswith("<") and n.endswith(">") else n
        if n.startswith("http://") or n.startswith("https://"):
            out = [("dereference", dict(uri=n, reader_mode=low(r["reader_mode"])))]
    return out + [("show_node_info", dict(node=r["node"], predicates=r["predicates"], show_node_mode=low(r["show_node_mode"]), depth=r["depth"],
                                          show_hyperlinks=r["show_hyperlinks"], iri_mode=iri(r), writer="writer"))]


def shapes(r):
    out = loading(r, r["base_data"])
    if out or r["shapes"] is not None:
        out = out + [("load_shacl_schema", dict(schema=r["shapes"], schema_format=low(r["shapes_format"]), base=r["base_shapes"], reader_mode=low(r["reader_mode"])))]
    return out


def s_shacl(r, has):
    return shapes(r) + [("serialize_shacl_schema", dict(shacl_format=low(r["result_shapes_format"]), writer="writer"))]


def s_shacl_validate(r, has):
    return shapes(r) + [("validate_shacl", dict(mode=low(r["mode"]))), ("serialize_shacl_validation_results", dict(
        shacl_validation_sort_order_mode=low(r["sort_by"]), result_shacl_validation_format=low(r["result_format"]), writer="writer"))]


def s_shex(r, has):
    out = []
    if r["schema"] is not None:
        out.append(("load_shex_schema", dict(schema=r["schema"], schema_format=low(r["schema_format"]), base_schema=r["base"], reader_mode=low(r["reader_mode"]))))
    out.append(("serialize_shex_schema", dict(shape_label=r["shape"], show_schema=r["show_schema"] and r["no_show_schema"], show_statistics=r["show_statistics"], show_dependencies=r["show_dependencies"],
                                              show_time=r["show_time"], shex_format=low(r["result_schema_format"]), writer="writer")))
    if r["compile_to"] is not None:
        out.append(("compile_shex_schema_to_file", dict(writer="file:" + r["compile_to"])))
    return out


def s_shex_validate(r, has):
    if r["list_external_resolvers"]:
        return []
    out = [("add_external_resolver", dict(spec=x)) for x in r["external_resolvers"]]
    out += loading(r, r["base_data"])
    mode = low(r["reader_mode"])
    if r["compiled_schema"] is not None:
        out.append(("load_shex_schema_precompiled", dict(schema=r["compiled_schema"], reader_mode=mode)))
    elif r["schema"] is not None:
        out.append(("load_shex_schema", dict(schema=r["schema"], schema_format=low(r["schema_format"]), base_schema=r["base_schema"], reader_mode=mode)))
        if r["compile_to"] is not None:
            out.append(("compile_shex_schema_to_file", dict(writer="file:" + r["compile_to"])))
    if r["shapemap"] is not None:
        out.append(("load_shapemap", dict(shapemap=r["shapemap"], shapemap_format=low(r["shapemap_format"]), base_nodes=r["base_data"], base_shapes=r["base_schema"])))
    if r["node"] is not None:
        out.append(("add_node_shape_to_shapemap", dict(node=r["node"], shape=r["shape"], base_nodes=r["base_data"], base_shapes=r["base_schema"], iri_mode=iri(r))))
    out += [("validate_shex", {}), ("serialize_shex_validation_results", dict(sort_order=low(r["sort_by"]), result_shex_validation_format=low(r["result_format"]), writer="writer"))]
    if r["map_state"] is not None:
        out.append(("serialize_map_state", dict(writer="file:" + r["map_state"])))
    return out


def s_pgschema_validate(r, has):
    out = []
    if r["data"]:
        out.append(("load_data", dict(data=r["data"], data_format=low(r["data_format"]))))
    if r["schema"] is not None:
        out.append(("load_pgschema", dict(pg_schema=r["schema"])))
    if r["typemap"] is not None:
        out.append(("load_typemap", dict(typemap=r["typemap"])))
    return out + [("validate_pgschema", {}), ("serialize_pgschema_validation_results", dict(result_pg_schema_validation_format=low(r["result_validation_format"]), writer="writer"))]


def s_validate(r, has):
    mode = r["validation_mode"]
    if mode == "ShEx":
        return s_shex_validate(dict(r, compiled_schema=None, compile_to=None, strict_iris=False, external_resolvers=(), list_external_resolvers=False), has)
    if mode == "Shacl":
        if r["schema_format"] in ("Simple", "ShExC", "ShExJ"):
            return None
        return s_shacl_validate(dict(r, shapes=r["schema"], shapes_format="JsonLd" if r["schema_format"] == "Json" else r["schema_format"], base_shapes=r["base_schema"],
                                     mode=r["shacl_validation_mode"]), has)
    if r["result_format"] not in ("Compact", "Details", "Json", "Csv"):
        return None
    return s_pgschema_validate(dict(r, typemap=r["shapemap"], result_validation_format=r["result_format"]), has)


def s_shapemap(r, has):
    out = []
    if r["shapemap"] is not None:
        out.append(("load_shapemap", dict(shapemap=r["shapemap"], shapemap_format=low(r["shapemap_format"]), base_nodes=r["base_data"], base_shapes=r["base_schema"])))
    return out + [("serialize_shapemap", dict(shapemap_format=low(r["result_shapemap_format"]), writer="writer"))]


def s_dctap(r, has):
    return ([("load_dctap", dict(dctap=r["file"], dctap_format=low(r["format"])))] if r["file"] is not None else []) + [
        ("serialize_dctap", dict(result_dctap_format=low(r["result_format"]), writer="writer"))]


def s_service(r, has):
    return ([("load_service_description", dict(service=r["service"], data_format=low(r["service_format"]), reader_mode=low(r["reader_mode"]), base=r["base_data"]))]
            if r["service"] is not None else []) + [("serialize_service_description", dict(result_service_format=low(r["result_service_format"]), writer="writer"))]


def s_sparql(r, has):
    return ([("load_sparql_query", dict(query=r["query"]))] if r["query"] is not None else []) + [("serialize_sparql_query", dict(writer="writer"))]


def s_compare(r, has):
    return [("show_schema_comparison", dict(schema1=r["schema1"], schema2=r["schema2"], base1=r["base1"], base2=r["base2"], reader_mode=low(r["reader_mode"]), format1=low(r["format1"]),
                                            format2=low(r["format2"]), mode1=low(r["input_mode1"]), mode2=low(r["input_mode2"]), shape1=r["shape1"], shape2=r["shape2"],
                                            show_time=r["show_time"], result_format=low(r["result_format"]), writer="writer"))]


def s_convert(r, has):
    return [("show_schema_conversion", dict(schema=r["file"], base=r["base"], reader_mode=low(r["reader_mode"]), input_mode=low(r["input_mode"]), output_mode=low(r["output_mode"]),
                                            input_format=low(r["format"]), output_format=low(r["result_format"]), shape=r["shape"], show_time=r["show_time"],
                                            templates_folder=r["template_folder"], output_folder=r["target_folder"] or r["common"]["output"], writer="writer"))]


def s_generate(r, has):
    n = r["entity_count"]
    return [("generate_data", dict(schema=r["schema"], schema_format=low(r["schema_format"]), result_generation_format=low(r["result_format"]), output=r["common"]["output"],
                                   config_file=r["generator_config"], number_entities=n if n is not None else (None if r["generator_config"] is not None else 10),
                                   seed=r["seed"], parallel=r["parallel"]))]


def s_materialize(r, has):
    out = []
    if r["schema"] is not None:
        out.append(("load_shex_schema", dict(schema=r["schema"], schema_format=low(r["schema_format"]), base_schema=r["base"], reader_mode=low(r["reader_mode"]))))
    if r["map_state"] is not None:
        out.append(("load_map_state", dict(path=r["map_state"])))
    return out + [("materialize", dict(initial_node_iri=r["node"], result_format=low(r["result_format"]), writer="writer"))]


def s_pgschema(r, has):
    return ([("load_pgschema", dict(pg_schema=r["schema"], pg_schema_format=low(r["schema_format"])))] if r["schema"] is not None else []) + [
        ("serialize_pgschema", dict(result_pg_schema_format=low(r["result_schema_format"]), writer="writer"))]


def s_rdf_config(r, has):
    return [("load_rdf_config", dict(rdf_config=r["input"], rdf_config_format=low(r["format"]))), ("serialize_rdf_config", dict(result_rdf_config_format=low(r["result_format"]), writer="writer"))]


def s_mcp(r, has):
    return [("run_mcp", dict(transport=low(r["transport"]), bind_address=r["bind_address"], port=r["port"], route_path=r["route_path"], allowed_networks=r["allowed_networks"]))]


def s_completion(r, has):
    return [("completion", dict(shell=r["shell"], writer="writer"))]


def s_config(r, has):
    return [("config", {})]


SPEC = {"Data": s_data, "Query": s_query, "Node": s_node, "Shacl": s_shacl, "ShaclValidate": s_shacl_validate, "Shex": s_shex, "ShexValidate": s_shex_validate,
        "Validate": s_validate, "PgschemaValidate": s_pgschema_validate, "Shapemap": s_shapemap, "Dctap": s_dctap, "Service": s_service, "Sparql": s_sparql, "Compare": s_compare,
        "Convert": s_convert, "Generate": s_generate, "Materialize": s_materialize, "Pgschema": s_pgschema, "RdfConfig": s_rdf_config, "Mcp": s_mcp, "Completion": s_completion,
        "Config": s_config}
HAS = {"Query": [{}, {"has_sparql_query": True}, {"query_results": True}, {"has_sparql_query": True, "query_results": True}], "Node": [{}, {"has_data": True}]}


def canon(ops):
    out = []
    for op, ps in ops:
        d = dict(ps)
        d = {k: v for k, v in d.items() if v is not None and k not in ("show_colors",) and not (k == "merge" and v is False) and not (k in ("prefixes", "data", "allowed_networks", "predicates") and v == ())}
        out.append((op, tuple(sorted(d.items(), key=lambda x: x[0]))))
    return out


def dependent(a, b):
    ra, rb = TOUCH.get(a, "+out").split(), TOUCH.get(b, "+out").split()
    return any((x.startswith("+") or y.startswith("+")) and x.lstrip("+") == y.lstrip("+") for x in ra for y in rb)


def same(got, want):
    """the same operations, with those that touch the same state in the same order"""
    if sorted(map(repr, got)) != sorted(map(repr, want)):
        return False
    pos = {}
    for i, x in enumerate(got):
        pos.setdefault(x, []).append(i)
    at = [pos[x].pop(0) for x in want]
    return all(at[i] < at[j] for i in range(len(want)) for j in range(i + 1, len(want)) if dependent(want[i][0], want[j][0]))


def show(ops):
    return "; ".join("%s(%s)" % (o, ", ".join("%s=%r" % x for x in ps)) for o, ps in ops) or "nothing"


def diff(got, want):
    g, w = list(got), list(want)
    a = [x for x in g if x not in w]
    b = [x for x in w if x not in g]
    if not a and not b:
        return "in the order %s" % "; ".join(x[0] for x in g)
    da, db = dict(a), dict(b)
    if len(a) == 1 and len(b) == 1 and a[0][0] == b[0][0]:
        x, y = dict(a[0][1]), dict(b[0][1])
        return "%s with %s" % (a[0][0], ", ".join("%s=%r instead of %r" % (k, x.get(k), y.get(k)) for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)))
    return show(a) + " instead of " + show(b)


def grid(m, args):
    """rows of arguments: everything given, nothing given, each field on or off alone, every variant of each enumeration, the backends"""
    fs = m.field_types(args)
    full = {n: m.default(n, s, True) for n, _, _, s in fs}
    bare = {n: m.default(n, s, False) for n, _, _, s in fs}
    for r in (full, bare):
        if "list_external_resolvers" in r:
            r["list_external_resolvers"] = False
        if "validation_mode" in r:
            r["validation_mode"] = "ShEx"
        if "shell" in r:
            r["shell"] = "Bash"
    rows = [("all", full), ("none", bare)]
    for n, _, _, s in fs:
        vs = m.variants(s)
        if vs:
            for v in vs:
                for k, b in (("all", full), ("none", bare)):
                    rows.append(("%s=%s/%s" % (n, v, k), dict(b, **{n: v})))
        elif n == "common":
            continue
        elif s == "bool" or s.startswith("core::option::Option<") or s.startswith("alloc::vec::Vec<"):
            rows.append(("without %s" % n, dict(full, **{n: bare[n] if s != "bool" else False})))
            rows.append(("only %s" % n, dict(bare, **{n: full[n] if s != "bool" else True})))
            if s == "core::option::Option<bool>":
                rows.append(("%s=false" % n, dict(full, **{n: False})))
            if s.startswith("alloc::vec::Vec<"):
                rows.append(("one %s" % n, dict(full, **{n: full[n][:1]})))
        elif s in ("usize", "u64", "u16"):
            rows.append(("%s=0" % n, dict(full, **{n: 0})))
    if "common" in full and "endpoint" in full["common"]:
        for k, b in (("all", full), ("none", bare)):
            for bk in (None, "Memory", "Qlever", ("Endpoint", "other-endpoint")):
                for ep in (None, "endpoint"):
                    for data in (("data-1", "data-2"), ("data-1",), ()):
                        rows.append(("backend %s, endpoint %s, %s data/%s" % (bk if isinstance(bk, str) or bk is None else "endpoint=", ep, len(data), k),
                                     dict(b, common=dict(b["common"], backend=bk, endpoint=ep), data=data)))
        for op in ("output", "config"):
            rows.append(("without %s" % op, dict(full, common=dict(full["common"], **{op: None}))))
    elif "common" in full:
        for op in full["common"]:
            rows.append(("without %s" % op, dict(full, common=dict(full["common"], **{op: bare["common"][op]}))))
            rows.append(("only %s" % op, dict(bare, common=dict(bare["common"], **{op: full["common"][op]}))))
    if "node" in full and "predicates" in full:
        for nd in ("http://e/x", "https://e/x", "<http://e/x>", " <https://e/x> ", " http://e/x ", ":x", "<:x>", "ftp://e/x", "<http://e/x", "http://e/x>", "_:b", "httpx://e", "http:/e"):
            rows.append(("node %s" % nd, dict(bare, node=nd)))
            rows.append(("node %s with data" % nd, dict(full, node=nd)))
    if "validation_mode" in full:
        for mode in ("Shacl", "PGSchema"):
            for n, r in list(rows):
                if not n.startswith("validation_mode"):
                    rows.append(("%s: %s" % (mode, n), dict(r, validation_mode=mode, **({"schema_format": "Turtle"} if mode == "Shacl" and not n.startswith("schema_format") else {}),
                                                            **({"result_format": "Json"} if mode == "PGSchema" and not n.startswith("result_format") else {}))))
    # pairs of optional fields off together (an absence noticed only beside another)
    opt = [n for n, _, _, s in fs if s.startswith("core::option::Option<") or s == "bool" and n != "list_external_resolvers"]
    for a, b in itertools.combinations(opt, 2):
        rows.append(("without %s and %s" % (a, b), dict(full, **{a: bare[a], b: bare[b]})))
        rows.append(("only %s and %s" % (a, b), dict(bare, **{a: full[a], b: full[b]})))
    return rows


def commands(c, m):
    P = m.P
    ex = {}
    for f in P.fns.values():
        g = re.search(r"<(rudof_cli::commands::\S*::(\w+)Command) as %s>::execute$" % re.escape(CMD), f.id)
        if g:
            ex[g.group(2)] = (f, g.group(1))
    missing = [k for k in SPEC if k not in ex]
    c.anchor("commands", "execute", None if missing else ex, "the implementation of every command (missing: %s)" % ", ".join(missing))
    for name in sorted(ex):
        if name not in SPEC:
            c.notes.append("command %s has no specification" % name)
    jobs = []
    for name in sorted(SPEC):
        if name not in ex:
            continue
        f, cmd = ex[name]
        a = P.adts[cmd]
        if len(a["v"][0]["f"]) != 1:
            c.ob("commands", name + "/shape", f.where(), False, "the %s command no longer holds its arguments alone" % name)
            continue
        args = P.ty(a["crate"], a["v"][0]["f"][0][1])["s"]
        jobs.append((name, cmd, f, grid(m, args)))
    work = []
    for name, cmd, f, rows in jobs:
        for row, r in rows:
            for has in HAS.get(name, [{}]):
                work.append((name, cmd, f.id, row + "".join(" +" + k for k in has), r, has, None))
        # an operation that fails fails the command
        r, has = dict(rows[0][1]), {"has_sparql_query": True}
        try:
            ops = sorted(set(o for o, _ in SPEC[name](r, has) or []) - {"config", "completion"})
        except KeyError:
            ops = []
        for op in ops:
            work.append((name, cmd, f.id, "%s fails" % op, r, has, op))
    global _M
    _M = m
    import multiprocessing as mp, gc
    gc.freeze()
    with mp.get_context("fork").Pool(min(8, mp.cpu_count())) as pool:
        res = pool.map(_work, work, chunksize=24)
    n = 0
    for (name, cmd, fid, tag, r, has, op), got in zip(work, res):
        key, w = "%s/%s" % (name, tag), P.fns[fid].where()
        n += 1
        if op:
            bad = [x for x in got if x[0] != "Err"]
            c.ob("commands", key, w, not bad and bool(got), "%s ends with %s although %s failed" % (name, bad[0][0] if bad else "nothing determined", op))
            continue
        try:
            want = SPEC[name](r, has)
        except KeyError as e:
            c.ob("commands", key, w, False, "the %s command has no option %s any more" % (name, e))
            continue
        if want is None:
            bad = [x for x in got if x[0] != "Err" or any(o.startswith(("run_", "validate_", "serialize_")) for o, _ in x[1])]
            c.ob("commands", key, w, not bad and bool(got), "%s with %s is not refused: %s" % (name, tag, show(canon(bad[0][1])) if bad else "nothing determined"))
            continue
        wc = canon(tuple((o, tuple(p.items())) for o, p in want))
        bad = [x for x in got if x[0] != "Ok" or not same(canon(x[1]), wc)]
        msg = "nothing determined" if not got else "" if not bad else ("it ends with %s after " % bad[0][0] + show(canon(bad[0][1])) if bad[0][0] != "Ok" else "it asks for " + diff(canon(bad[0][1]), wc))
        c.ob("commands", key, w, not bad and bool(got), "%s with %s: %s" % (name, tag, msg))
    c.floor("commands", n, "rows of options")


def _work(x):
    name, cmd, fid, tag, r, has, op = x
    _M.has, _M.fail = has, op
    return _M.run(_M.P.fns[fid], cmd, r)


# the documented options: field: --long -short =default; ! required, + repeatable, !flag a switch that sets, !off one that clears
OPTIONS = {
    'CommonArgsAll': 'config:--config-file -c; output:--output-file -o; force_overwrite:--force-overwrite =false !flag; backend:--backend; endpoint:--endpoint -e',
    'CommonArgsNoBackend': 'config:--config-file -c; output:--output-file -o; force_overwrite:--force-overwrite =false !flag',
    'CommonArgsOutputForceOverWrite': 'output:--output-file -o; force_overwrite:--force-overwrite =false !flag',
    'Compare': 'input_mode1:--mode1 =shex; input_mode2:--mode2 =shex; schema1:--schema1 !; schema2:--schema2 !; format1:--format1 =shexc; format2:--format2 =shexc; base1:--base1; base2:--base2; result_format:--result-format -r =internal; target_folder:--target-folder -t; shape1:--shape1; shape2:--shape2; reader_mode:--reader-mode =strict; show_time:--show-time',
    'Completion': 'shell: !',
    'Convert': 'input_mode:--input-mode -m !; file:--source-file -s !; format:--format -f =shexc; base:--base -b; result_format:--result-format -r =default; target_folder:--target-folder -t; template_folder:--templates-folder -e; shape:--shape-label -l; reader_mode:--reader-mode =strict; output_mode:--export-mode -x !; show_time:--show-time',
    'Data': 'data: +; prefixes:--prefix -p +; data_format:--data-format -t =turtle; base:--base -b; reader_mode:--reader-mode =strict; result_format:--result-format -r =turtle',
    'DCTap': 'file:--source-file -s; format:--format -f =csv; result_format:--result-format -r =internal',
    'Generate': 'schema:--schema -s !; schema_format:--schema-format -f =auto; entity_count:--entities -n; result_format:--result-format -r =turtle; seed:--seed; parallel:--parallel -p; generator_config:--generator-config',
    'Materialize': 'schema:--schema -s; schema_format:--schema-format -f =shexc; reader_mode:--reader-mode =strict; base:--base -b; map_state:--map-state -m; node:--node -n; result_format:--result-format -r =turtle',
    'Mcp': 'transport:--transport -t =stdio; bind_address:--bind -b =127.0.0.1; port:--port -p =8000; route_path:--route -r =/rudof; allowed_networks:--allowed-network -n +',
    'Node': 'data: +; node:--node -n !; data_format:--data-format -t =turtle; base:--base -b; reader_mode:--reader-mode =strict; show_node_mode:--show-node-mode -m =outgoing; show_hyperlinks:--show-hyperlinks; predicates:--predicates -p +; depth:--depth -d =1; strict_iris:--strict-iris !flag',
    'Pgschema': 'schema:--schema -s; schema_format:--format -f =pgschemac; base:--base; result_schema_format:--result-format -r =pgschemac; show_time:--show-time -t; show_schema:--show-schema',
    'PgschemaValidate': 'schema:--schema -s; data: +; data_format:--data-format -t =pg; typemap:--typemap -m; result_validation_format:--result-format -r =compact',
    'Query': 'data: +; data_format:--data-format -t =turtle; base:--base -b; query_type:--query-type =select; reader_mode:--reader-mode =strict; query:--query -q; result_query_format:--result-format -r =internal',
    'RdfConfig': 'input:--source-file -s !; result_format:--result-format -r =internal; format:--format -f =yaml',
    'Service': 'service:--service -s; service_format:--format -f =turtle; result_service_format:--result-format -r =json; reader_mode:--reader-mode =strict; base_data:--base',
    'Shacl': 'data: +; data_format:--data-format -t =turtle; reader_mode:--reader-mode =strict; shapes:--shapes -s; shapes_format:--shapes-format -f =turtle; base_data:--base-data; base_shapes:--base-shapes; result_shapes_format:--result-shapes-format -r =turtle',
    'ShaclValidate': 'data: +; data_format:--data-format -t =turtle; base_data:--base-data; reader_mode:--reader-mode =strict; shapes:--shapes -s; shapes_format:--shapes-format -f =turtle; base_shapes:--base-shapes; mode:--mode -m =native; result_format:--result-format -r =details; sort_by:--sort_by =severity',
    'Shapemap': 'shapemap:--shapemap -m; shapemap_format:--format -f =compact; base_data:--base-data; base_schema:--base-schema; result_shapemap_format:--result-format -r =compact',
    'Shex': 'schema:--schema -s; schema_format:--format -f =shexc; result_schema_format:--result-format -r =shexc; shape:--shape-label -l; show_time:--show-time -t; show_schema:--show-schema =true !flag; no_show_schema:--no-show-schema !off; show_statistics:--statistics; base:--base -b; reader_mode:--reader-mode =strict; show_dependencies:--show-dependencies; compile_to:--compile-to',
    'ShexValidate': 'data: +; schema:--schema -s; compiled_schema:--compiled-schema; compile_to:--compile-to; schema_format:--schema-format -f =shexc; shapemap:--shapemap -m; shapemap_format:--shapemap-format; node:--node -n; sort_by:--sort_by =node; shape:--shape-label -l; data_format:--data-format -t =turtle; base_schema:--base-schema; base_data:--base-data; reader_mode:--reader-mode =strict; result_format:--result-format -r =details; map_state:--map-state; strict_iris:--strict-iris !flag; external_resolvers:--external-resolver +; list_external_resolvers:--list-external-resolvers !flag',
    'Sparql': 'query:--query -q',
    'Validate': 'data: +; validation_mode:--mode -M =shex; schema:--schema -s; schema_format:--schema-format -f =shexc; shapemap:--shapemap -m; shapemap_format:--shapemap-format =compact; base_data:--base-data; base_schema:--base-schema; sort_by:--sort_by =node; node:--node -n; shape:--shape-label -l; data_format:--data-format -t =turtle; max_steps:--max-steps =100; shacl_validation_mode:--shacl-mode -S =native; reader_mode:--reader-mode =strict; result_format:--result-format -r =compact; map_state:--map-state',
}
PARSER = "rudof_cli::cli::parser::base::"
NOCONFIG = ("Shapemap", "PgschemaValidate", "Completion")


def dispatch(c, m):
    """the command line's variant becomes the command of that name with those very arguments; its common options set up the context"""
    P, I = m.P, m.I
    cli = P.adts.get(PARSER + "Command")
    create = [f for f in P.fns.values() if f.id.startswith("rudof_cli::commands::base::") and f.name == "create"]
    fc = [f for f in P.fns.values() if f.id.startswith("rudof_cli::commands::base::") and f.name == "from_cli"]
    ok = c.anchor("dispatch", "Command", cli, "the subcommands") and c.anchor("dispatch", "create", create if len(create) == 1 else None, "the factory of commands") and \
        c.anchor("dispatch", "from_cli", fc if len(fc) == 1 else None, "the context of a command line")
    if not ok:
        return
    calls = []
    h = [(r"RudofConfig::discover$", lambda I, s, n, cc, a, st: [(Ok(("a", "CONFIG", "", (I.deref(a[0], st),))), st)]),
         (r"Rudof::new$", lambda I, s, n, cc, a, st: [(("a", "RUDOF", "", (I.deref(a[0], st),)), st)]),
         (r"(^|::)get_writer$", lambda I, s, n, cc, a, st: [(Ok(("t", (("a", "WRITER", "", (I.deref(a[0], st), I.deref(a[1], st))), I.sym("in", "color")))), st)]),
         (r"Path(Buf)?::as_path$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)])]
    J = new_interp(P, h, seq_cap=64, int_cap=10 ** 6)
    for v in cli["v"]:
        name = v["n"]
        args = P.ty(cli["crate"], v["f"][0][1])["s"]
        cell = I.sym("in", "arguments")
        val = ("a", PARSER + "Command", name, (cell,))
        if name != "Shell":
            I.memo.clear(); I.steps = 0
            outs = I.exec_fn(create[0], (val,), (), {}, (), ())
            got = {I.show(r) for r, _, _ in outs}
            want = {"Ok(%sCommand(%s))" % (name[0] + name[1:].lower() if name == "DCTap" else name, I.show(cell))}
            c.ob("dispatch", "create/" + name, create[0].where(), got == want, "the `%s` command line runs %s" % (name, " or ".join(sorted(got)) or "nothing determined"))
        rows = []
        fs = m.field_types(args)
        common = next((s for n, _, _, s in fs if n == "common"), None)
        for conf, out, force in itertools.product((None, "c.toml"), (None, "out.ttl"), (False, True)):
            row = {n: m.default(n, s, True) for n, _, _, s in fs}
            if "shell" in row:
                row["shell"] = "Bash"
            if common:
                row["common"] = {k: {"config": conf, "output": out, "force_overwrite": force, "backend": None, "endpoint": "ep"}[k] for k, _, _, _ in m.field_types(common)}
            a = ("a", args, "", tuple(m.val(cr, t, row[n]) for n, cr, t, s in fs))
            J.memo.clear(); J.steps = 0
            outs = J.exec_fn(fc[0], (("a", PARSER + "Command", name, (a,)), ("i", 3)), (), {}, (), ())
            o = lambda x: NONE if x is None else Some(("s", x))
            has_conf = common and any(k == "config" for k, _, _, _ in m.field_types(common))
            want = {"writer": ("a", "WRITER", "", (o(out if common else None), ("b", bool(force and common)))),
                    "rudof": ("a", "RUDOF", "", (("a", "CONFIG", "", (o(conf if has_conf else None),)),)), "debug_level": ("i", 3)}
            bad = None if outs else "nothing determined"
            for r, _, _ in outs:
                if r[0] != "a" or r[2] != "Ok":
                    bad = "it ends with " + J.show(r)[:150]
                    continue
                d = fields(P, r[3][0])
                for k, w in want.items():
                    if d.get(k) != w:
                        bad = "%s is %s instead of %s" % (k, J.show(d.get(k))[:150], J.show(w)[:150])
            rows.append(("config %s, output %s, force %s" % (conf, out, force), bad))
        bad = [x for x in rows if x[1]]
        c.ob("dispatch", "context/" + name, fc[0].where(), not bad, "the context of `%s` with %s: %s" % ((name,) + bad[0] if bad else (name, "", "")))
        needs = name not in NOCONFIG + ("Mcp",)
        c.ob("dispatch", "config/" + name, fc[0].where(), not needs or bool(common and any(k == "config" for k, _, _, _ in m.field_types(common))), "`%s` has lost its --config-file" % name)


def declared(m, args):
    """what the command-line parser is told of each option: id -> {long, short, default, required, action}"""
    P = m.P
    f = P.fns.get("<%s as clap_builder::derive::Args>::augment_args" % args)
    if f is None:
        return None
    def h_arg(I, s, n, cc, a, st):
        k = n.split("::")[-1]
        v = I.deref(a[0], st)
        if k == "new":
            return [(("a", "ARGDEF", "", (v,)), st)]
        return [(("a", "ARGDEF", "", v[3] + (("t", (("s", k),) + tuple(I.deref(x, st) for x in a[1:])),)), st)] if v[:2] == ("a", "ARGDEF") else None
    def h_cmd(I, s, n, cc, a, st):
        v = I.deref(a[0], st)
        return [(("L", v[1] + (I.deref(a[1], st),)) if n.endswith("::arg") else v, st)] if v[0] == "L" else None
    I = new_interp(P, [(r"builder::arg::Arg::\w+$", h_arg), (r"builder::command::Command::\w+$", h_cmd), (r"PossibleValue::new$", lambda I, s, n, cc, a, st: [(("a", PV, "", (I.deref(a[0], st),)), st)]),
                       (r"PossibleValue::get_name$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st)[3][0], st)] if I.deref(a[0], st)[:2] == ("a", PV) else None),
                       (r"PossibleValue::(help|alias|aliases|hide)$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]),
                       (r"ArgAction::takes_values$", lambda I, s, n, cc, a, st: [(("b", I.deref(a[0], st)[2] in ("Set", "Append")), st)])], seq_cap=64, int_cap=10 ** 6, inline_display=True)
    outs = I.exec_fn(f, (("L", ()),), (), {}, (), ())
    if len(outs) != 1 or outs[0][0][0] != "L":
        return None
    res = {}
    for x in outs[0][0][1]:
        if x[0] != "a" or x[3][0][0] != "s":
            continue
        d = {"long": None, "short": None, "default": None, "required": False, "action": "Set"}
        for y in x[3][1:]:
            k, v = y[1][0][1], y[1][1] if len(y[1]) > 1 else None
            if k in ("long", "short"):
                d[k] = v[1]
            elif k == "default_value":
                d["default"] = v[1] if v[0] == "s" else str(v[1]).lower() if v[0] in ("b", "i") else re.sub(r"^str\((.*)\)$", r"\1", I.show(v)).lower()
            elif k == "required":
                d["required"] = v == TRUE
            elif k == "action":
                d["action"] = v[2] if v[0] == "a" else "?"
        res[x[3][0][1]] = d
    return res


def want_option(text):
    f, rest = text.split(":", 1)
    w = {"field": f, "long": None, "short": None, "default": None, "required": False, "action": "Set"}
    for x in rest.split():
        if x.startswith("--"):
            w["long"] = x[2:]
        elif x.startswith("-"):
            w["short"] = x[1:]
        elif x.startswith("="):
            w["default"] = x[1:]
        elif x == "!":
            w["required"] = True
        else:
            w["action"] = {"+": "Append", "!flag": "SetTrue", "!off": "SetFalse"}[x]
    return w


def options(c, m):
    """every documented option is declared with its names, its default, and whether it is required, repeated or a switch"""
    P = m.P
    for cmd in sorted(OPTIONS):
        args = next((a for a in P.adts if re.search(r"^rudof_cli::cli::parser::\w+::%s$" % (cmd if cmd.startswith("Common") else cmd + "Args"), a)), None)
        f = P.fns.get("<%s as clap_builder::derive::Args>::augment_args" % args)
        got = declared(m, args) if args else None
        if not c.anchor("options", cmd, got, "the declared options of %s" % cmd):
            continue
        for t in OPTIONS[cmd].split("; "):
            w = want_option(t)
            d = next(((k, v) for k, v in got.items() if v["long"] == w["long"]), None) if w["long"] else (w["field"], got.get(w["field"]))
            bad = []
            if not d or d[1] is None:
                bad = ["is not declared"]
            else:
                bad = ["%s is %s instead of %s" % (k, d[1][k], w[k]) for k in ("short", "default", "required", "action") if d[1][k] != w[k]]
                if w["long"]:
                    m.names.setdefault(args, {})[d[0]] = w["field"]
            c.ob("options", "%s/%s" % (cmd, w["long"] or w["field"]), f.where(), not bad, "option %s of %s: %s" % ("--" + w["long"] if w["long"] else w["field"], cmd, "; ".join(bad)))


def writer(c, m):
    """-o: no option or `-` is the standard output; a file that exists is overwritten only with --force-overwrite"""
    P = m.P
    f = [f for f in P.fns.values() if f.id.startswith("rudof_cli::output") and f.name == "get_writer" and f.kind == "fn"]
    if not c.anchor("writer", "get_writer", f if len(f) == 1 else None, "the writer of a command"):
        return
    f = f[0]
    ident = lambda I, s, n, cc, a, st: [(I.deref(a[-1], st), st)]
    for path, exists, force in itertools.product((None, "-", "out.ttl", "--", "-x", ""), (False, True), (False, True)):
        h = [(r"(Path::exists|Path::try_exists|Path::is_file|fs::exists)$", lambda I, s, n, cc, a, st: [(("b", exists) if "try" not in n and "fs::exists" not in n else Ok(("b", exists)), st)]),
             (r"File::create$|OpenOptions::open$", lambda I, s, n, cc, a, st: [(Ok(("a", "FILE", "", (I.deref(a[-1], st),))), st)]),
             (r"File::create_new$", lambda I, s, n, cc, a, st: [(Err(("s", "exists")) if exists else Ok(("a", "FILE", "", (I.deref(a[-1], st),))), st)]),
             (r"io::(?:\w+::)*stdout$", lambda I, s, n, cc, a, st: [(("s", "STDOUT"), st)]), (r"(Buf|Line)Writer::(?:<.*>::)?(new|with_capacity)$", ident),
             (r"(to_string_lossy|as_os_str|Path::new|as_ref|OsStr::as_encoded_bytes|into_owned)$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]),
             (r"(Path|OsStr)::to_str$", lambda I, s, n, cc, a, st: [(Some(I.deref(a[0], st)), st)]), (r"detect_color_support", lambda I, s, n, cc, a, st: [(I.sym("in", "color"), st)])]
        I = new_interp(P, h, seq_cap=64, int_cap=10 ** 6)
        outs = I.exec_fn(f, (NONE if path is None else Some(("s", path)), ("b", force)), (), {}, (), ())
        got = set()
        for r, _, _ in outs:
            got.add("error" if r[0] == "a" and r[2] == "Err" else I.show(r[3][0][1][0]) if r[0] == "a" and r[2] == "Ok" and r[3][0][0] == "t" else "?" + I.show(r)[:80])
        want = {"'STDOUT'"} if path in (None, "-") else {"error"} if exists and not force else {"FILE(%r)" % path}
        if path == "":
            want = got if got <= {"error", "FILE('')"} else want
        key = "output %s%s%s" % (path, ", existing" if exists else "", ", forced" if force else "")
        c.ob("writer", key, f.where(), got == want, "%s: the output goes to %s instead of %s" % (key, " or ".join(sorted(got)) or "nothing determined", " or ".join(sorted(want))))


def backends(c, m):
    """the texts of --backend"""
    P = m.P
    f = [f for f in P.fns.values() if re.search(r"BackendKindCli as core::str::traits::FromStr>::from_str$", f.id)]
    if not c.anchor("backend", "from_str", f if len(f) == 1 else None, "the parser of --backend"):
        return
    f = f[0]
    I = new_interp(P, [], seq_cap=64, int_cap=10 ** 6, inline_display=True)
    for t in ("memory", "Memory", "MEMORY", " memory ", "qlever", "QLever", "endpoint=http://e/Sparql", "endpoint=MyName", "endpoint:wikidata", " endpoint=x ", "endpoint", "endpoint=", "endpoint:", "",
              "foo", "memoryx", "endpoints=x", "xmemory", "qlever2", "endpoint=http://e/?a=b&c:d", "endpoint=endpoint=x", "endpoint=memory", "endpoint=qlever"):
        k = t.strip()
        want = "Ok(Memory)" if k.lower() == "memory" else "Ok(Qlever)" if k.lower() == "qlever" else None
        for p in ("endpoint=", "endpoint:"):
            if want is None and k.startswith(p) and k[len(p):]:
                want = "Ok(Endpoint(%r))" % k[len(p):]
        I.memo.clear(); I.steps = 0
        got = {I.show(r) if r[0] == "a" and r[2] == "Ok" else "error" if r[0] == "a" and r[2] == "Err" else "?" + I.show(r)[:80] for r, _, _ in I.exec_fn(f, (("s", t),), (), {}, (), ())}
        c.ob("backend", "text %r" % t, f.where(), got == {want or "error"}, "--backend %r is %s instead of %s" % (t, " or ".join(sorted(got)) or "nothing determined", want or "an error"))


def run(c):
    P = c.prog
    c.rule("dispatch", "every subcommand runs the command of its name with its own arguments; its context has the configuration of --config-file, the writer of --output-file and --force-overwrite")
    c.rule("options", "every documented option is declared to the command-line parser under its long and short name, with its default, required or not, repeatable or a switch as documented")
    c.rule("writer", "no --output-file or `-` is the standard output; an existing file is replaced only with --force-overwrite")
    c.rule("backend", "--backend is memory, qlever or endpoint=X (X kept as it is); anything else is an error")
    c.rule("commands", "executing a command with every combination on a grid of its options (all, none, each alone or missing, pairs, every variant of every enumeration, the backends) asks the library "
           "for exactly the operations that it documents, every parameter carrying the value of its option; operations on the same state come in the documented order; an operation that fails fails the command")
    m = M(P)
    if not c.anchor("commands", "operations", m.ops if set(m.ops) >= set(TOUCH) - {"add_external_resolver"} else None, "the library's operations (missing: %s)" % sorted(set(TOUCH) - set(m.ops))):
        return
    options(c, m)
    dispatch(c, m)
    writer(c, m)
    backends(c, m)
    c.floor("options", 150, "options")
    c.floor("dispatch", 60, "subcommands")
    c.floor("writer", 24, "output options")
    c.floor("backend", 20, "backend texts")
    commands(c, m)
