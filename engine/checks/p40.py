"""P40: a line of the interactive shell."""
import itertools, json
import re
import shlex

from vf.table import *
from vf.absint import FALSE, NONE, TRUE, UNIT, Err, Ok, Some, T
from checks import p12

TITLE = "A shell line does what it says and leaves the rest of the session as it was"
CMD = p12.PARSER + "Command"
RUDOF = "rudof_lib::rudof::Rudof"
TV = "toml::value::Value"
TERM = ("a", "TERMINAL", "", ())
ENDPOINTS = (("wikidata", "http://w/sparql"), ("dbpedia", "http://d/sparql"))
BARE = {"shex": "-s", "shacl": "-s", "shapemap": "-m", "pgschema": "-s", "dctap": "-s", "service": "-s", "materialize": "-s", "generate": "-s", "rdf-config": "-s", "node": "-n", "sparql": "-q"}
RESET = {"data": "data", "shex": "shex_schema shex_schema_ir shex_validator map_state", "shacl": "shacl_shapes", "pgschema": "pg_schema", "shapemap": "shapemap", "dctap": "dctap",
         "service": "service_description", "query": "sparql_query query_results", "sparql": "sparql_query", "typemap": "typemap", "rdf-config": "rdf_config", "endpoint": "ENDPOINT"}
KEEP = ("version", "config")


class S:
    def __init__(m, P, run):
        m.run = run
        m.P = P
        m.A = p12.M(P)
        m.repl = next((a for a, d in P.adts.items() if a.startswith("rudof_cli::shell::") and d["k"] == "struct" and len(d["v"][0]["f"]) == 1 and P.ty(d["crate"], d["v"][0]["f"][0][1])["s"] == CMD), None)
        m.fields = [n for n, _ in P.adts[RUDOF]["v"][0]["f"]]
        ret = lambda r: (lambda I, s, n, cc, a, st: [(r, st)])
        ident = lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]
        hs = [(r"^shlex::split$", m.h_split), (r"Parser::try_parse_from$", m.h_parse), (r"CommandFactory::create$", m.h_create), (r"commands::base::Command::execute$", m.h_exec),
              (r"(^|::)get_writer$", m.h_writer), (r"io::(?:\w+::)*sink$", ret(("a", "SINK", "", ()))), (r"io::(?:\w+::)*stderr$", ret(("a", "STDERR", "", ()))), (r"io::(?:\w+::)*stdout$", ret(("a", "STDOUT", "", ()))),
              (r"(::write_fmt|::write_all)$", m.h_print), (r"::flush$", m.h_flush), (r"^rudof_lib::api::\w+::implementations::(?:\w+::)*(load_data|update_config)$", m.h_op),
              (r"^rudof_lib::api::core::implementations::(?:\w+::)*config$", ret(("a", "CONFIG", "", ()))), (r"RudofConfig::(?:\w+::)*rdf_data$", ident),
              (r"RdfDataConfig::endpoints$", ret(("L", tuple(("t", (("s", k), ("a", "ENDPOINT", "", (("s", u),)))) for k, u in ENDPOINTS)))),
              (r"::query_url$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st)[3][0], st)]),
              (r"::to_toml_string$", m.h_toml), (r"^toml::(?:\w+::)*from_str$", lambda I, s, n, cc, a, st: [(Ok(I.deref(a[0], st)[3][0]), st)] if I.deref(a[0], st)[1] == "TOML" else None),
              (r"^toml::(?:\w+::)*to_string(_pretty)?$", lambda I, s, n, cc, a, st: [(Ok(("a", "TOML", "", (I.deref(a[0], st),))), st)]),
              (r"::from_toml_str$", m.h_conf), (r"^toml::value::Value::(get|get_mut|as_table_mut|as_table)$", m.h_value), (r"^toml::map::Map::<.*>::(insert|get|get_mut|contains_key)$", m.h_map),
              (r"^std::env::(var|var_os)$", lambda I, s, n, cc, a, st: [(Ok(("s", m.shell)) if m.shell else Err(("s", "unset")), st)]),
              (r"^std::process::Command::(new|arg|args|status|spawn|output)$", m.h_proc), (r"(with_context|anyhow::Context::context)$", ident),
              (r"anyhow::(?:\w+::)*Ok$", lambda I, s, n, cc, a, st: [(Ok(I.deref(a[0], st)), st)]),
              (r"Rudof::(?:\w+::)*(data_stats|shex_schema|shacl_shapes|dctap|pg_schema|service_description)$", m.h_stats),
              (r"(Schema::shapes|IRSchema::iter|DCTap::shapes|TapContext::shapes)$", m.h_shapes), (r"::(node_type_count|edge_type_count|available_graphs_count|feature_count)$", m.h_count),
              (r"^(<rudof_iri::iri::iris::IriS as core::str::traits::FromStr>::from_str|rudof_iri::iri::iris::IriS::from_str)$", m.h_iri),
              (r"Path(Buf)?::as_path$", ident), (r"(to_string_lossy|as_os_str|Path::new|OsStr::as_encoded_bytes|into_owned)$", ident), (r"Path(Buf)?::display$", ident),
              (r"(^|::)home_dir$", ret(NONE)), (r"ShellHelper::new$", ret(("a", "HELPER", "", ()))), (r"CommandFactory>?::command$", ret(("a", "CLAP", "", ()))), (r"Command::get_subcommands$", ret(("it", ("L", ())))),
              (r"Command::(render_long_help|render_help)$", ret(("s", "HELP"))),
              (r"Editor::<.*>::(with_config)$", ret(Ok(("a", "EDITOR", "", ())))), (r"Editor::<.*>::readline$", m.h_readline), (r"Editor::<.*>::(helper|helper_mut)$", ret(NONE)),
              (r"Editor::<.*>::(add_history_entry|load_history|save_history)$", ret(Ok(TRUE)))]
        m.I = new_interp(P, hs, seq_cap=64, int_cap=10 ** 6, inline_display=True)
        m.A.I = m.I
        m.set()

    def set(m, parse=None, failing=(), shell=None, exists=False, root=None, loaded=None, script=(), known=None):
        m.parse, m.failing, m.shell, m.exists, m.root, m.loaded, m.script, m.known = parse, failing, shell, exists, root, loaded, script, known

    def rec(m, st, *ev):
        ns = st.fork()
        ns.G[("tr",)] = st.G.get(("tr",), ()) + (ev,)
        return ns

    def res(m, what):
        return Err(("s", what)) if what in m.failing else Ok(UNIT)

    def h_split(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "s":
            return None
        try:
            return [(Some(("L", tuple(("s", x) for x in shlex.split(v[1])))), st)]
        except ValueError:
            return [(NONE, st)]

    def h_parse(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] == "it":
            v = v[1]
        toks = tuple(I.deref(x, st)[1] for x in v[1]) if v[0] == "L" else ("?",)
        ns = m.rec(st, "parse", toks)
        v = (m.parse or {}).get(toks)
        return [(Err(("s", "usage")) if v is None else Ok(("a", m.repl, "", (v,))), ns)]

    def h_create(m, I, site, name, callee, args, st):
        return [(Err(("s", "create")) if "create" in m.failing else Ok(("a", "CMD", "", (I.deref(args[0], st),))), st)]

    def ctx(m, v):
        return dict(zip([n for n, _ in m.P.adts[p12.CTXA]["v"][0]["f"]], v[3]))

    def gone(m, ctx):
        """the parts of the session that a context no longer has"""
        g = {n for n, x in zip(m.fields, ctx["rudof"][3]) if x == NONE} | ({"ENDPOINT"} if ctx["active_endpoint"] == NONE else set())
        return frozenset(g)

    def h_exec(m, I, site, name, callee, args, st):
        v, ctx = I.deref(args[0], st), I.deref(args[1], st)
        if v[1] != "CMD" or ctx[1] != p12.CTXA:
            return None
        d = m.ctx(ctx)
        return [(m.res("execute"), m.rec(st, "execute", v[3][0][2] if v[3][0] in m.parse.values() else "?" + I.show(v[3][0])[:80], I.show(I.deref(d["writer"], st)), m.gone(d)))]

    def h_writer(m, I, site, name, callee, args, st):
        p, f = I.deref(args[0], st), I.deref(args[1], st)
        ps = p[3][0] if p[0] == "a" and p[2] == "Some" else p
        ps = I.deref(ps, st)
        if "writer" in m.failing or (m.exists and f == FALSE):
            return [(Err(("s", "writer")), m.rec(st, "open", ps[1:2], f[1]))]
        return [(Ok(("t", (("a", "FILE", "", (ps, f)), I.sym("in", "color")))), m.rec(st, "open", ps[1:2], f[1]))]

    def wr(m, I, v, st):
        v = I.deref(v, st)
        return I.show(v) if v[0] == "a" and v[1] in ("TERMINAL", "SINK", "STDERR", "STDOUT", "FILE") else None

    def h_print(m, I, site, name, callee, args, st):
        w = m.wr(I, args[0], st)
        if w is None:
            return None
        t = I.deref(args[1], st)
        if w == "STDERR":
            return [(Ok(UNIT), m.rec(st, "error"))]
        return [(Ok(UNIT), m.rec(st, "print", w, t[1] if t[0] == "s" else I.show(t)[:200]))]

    def h_flush(m, I, site, name, callee, args, st):
        w = m.wr(I, args[0], st)
        if w is None:
            return None
        return [(m.res("flush") if w.startswith("FILE") else Ok(UNIT), m.rec(st, "flush", w))]

    def h_op(m, I, site, name, callee, args, st):
        k = name.split("::")[-1]
        if k == "update_config":
            return [(UNIT, m.rec(st, k, json.dumps(plain(I.deref(args[1], st)[3][0]), sort_keys=True)))]
        f = m.P.fns.get(callee[1]) or m.P.fns.get(name)
        nm = f.d["names"]
        nm = [((nm.get(str(i + 1)) if isinstance(nm, dict) else nm[i + 1]) or "").lstrip("_") for i in range(f.argc)] if f else [""] * len(args)
        vals = tuple(sorted((n, m.A.pv(I.deref(a, st), st)) for n, a in list(zip(nm, args))[1:] if m.A.pv(I.deref(a, st), st) is not None))
        return [(m.res(k), m.rec(st, k, vals))]

    def h_toml(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        return [(Ok(("a", "TOML", "", (v[3][0] if v[3] else tv(m.root or {}),))), st)]

    def h_conf(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != "TOML":
            return None
        r = accepted(plain(v[3][0]), m.known or {})
        return [(Err(("s", "invalid")) if r is None else Ok(("a", "CONFIG", "", (tv(r),))), st)]

    def h_value(m, I, site, name, callee, args, st):
        k = name.split("::")[-1]
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != TV:
            return None
        if k.startswith("as_table"):
            if v[2] != "Table":
                return [(NONE, st)]
            if k == "as_table":
                return [(Some(v[3][0]), st)]
            c, pr = fin(I, args[0], st)
            return [(Some(("p", c, tuple(pr) + (("f", 0, "Table"),))), st)]
        key = I.deref(args[1], st)
        if v[2] != "Table" or key[0] != "s":
            return [(NONE, st)]
        for i, e in enumerate(v[3][0][1]):
            if e[1][0] == key:
                if k == "get":
                    return [(Some(e[1][1]), st)]
                c, pr = fin(I, args[0], st)
                return [(Some(("p", c, tuple(pr) + (("f", 0, "Table"), ("c", i, False), ("f", 1, None)))), st)]
        return [(NONE, st)]

    def h_map(m, I, site, name, callee, args, st):
        k = name.split("::")[-1]
        v, key = I.deref(args[0], st), I.deref(args[1], st)
        if v[0] != "L":
            return None
        at = next((i for i, e in enumerate(v[1]) if e[1][0] == key), None)
        if k == "contains_key":
            return [(("b", at is not None), st)]
        if k == "get":
            return [(NONE if at is None else Some(v[1][at][1][1]), st)]
        c, pr = fin(I, args[0], st)
        if k == "get_mut":
            return [(NONE if at is None else Some(("p", c, tuple(pr) + (("c", at, False), ("f", 1, None)))), st)]
        ns = st.fork()
        new = ("t", (key, I.deref(args[2], st)))
        I.write_cell(c, pr, ("L", v[1] + (new,) if at is None else v[1][:at] + (new,) + v[1][at + 1:]), ns)
        return [(NONE if at is None else Some(v[1][at][1][1]), ns)]

    def h_proc(m, I, site, name, callee, args, st):
        k = name.split("::")[-1]
        if k == "new":
            return [(("a", "PROC", "", (I.deref(args[0], st),)), st)]
        c = fin(I, args[0], st) if args[0][0] == "p" else None
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != "PROC":
            return None
        if k in ("arg", "args"):
            x = I.deref(args[1], st)
            nv = ("a", "PROC", "", v[3] + (x[1] if k == "args" and x[0] == "L" else (x,)))
            if c is None:
                return [(nv, st)]
            ns = st.fork()
            I.write_cell(c[0], c[1], nv, ns)
            return [(args[0], ns)]
        return [(m.res("run"), m.rec(st, "run", tuple(x[1] if x[0] == "s" else "?" + I.show(x)[:60] for x in v[3])))]

    def h_stats(m, I, site, name, callee, args, st):
        k = name.split("::")[-1]
        if m.loaded is None:
            return [(NONE, st)]
        if k == "data_stats":
            kind, a, b = m.loaded
            return [(Some(("a", "rudof_lib::rudof::DataStats", kind, (("i", a),) if kind == "Rdf" else (("i", a), ("i", b)))), st)]
        return [(Some(("a", "LOADED", "", ())), st)]

    def h_shapes(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != "LOADED":
            return None
        n = m.loaded[1]
        l = ("L", tuple(I.sym("in", "shape%d" % i) for i in range(n)))
        return [(Some(l) if name.endswith("Schema::shapes") else ("it", l), st)]

    def h_count(m, I, site, name, callee, args, st):
        return [(("i", m.loaded[1] if re.search("node_type|available_graphs", name) else m.loaded[2]), st)]

    def h_iri(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        return [(Ok(v) if v[0] == "s" and ":" in v[1] else Err(("s", "not an IRI")), st)]

    def h_readline(m, I, site, name, callee, args, st):
        i = st.G.get(("line",), 0)
        ns = m.rec(st, "line", i)
        ns.G[("line",)] = i + 1
        x = m.script[i] if i < len(m.script) else "EOF"
        if x in ("EOF", "INT", "IO"):
            v = {"EOF": "Eof", "INT": "Interrupted", "IO": "Io"}[x]
            return [(Err(("a", "rustyline::error::ReadlineError", v, (("s", "io"),) if x == "IO" else ())), ns)]
        return [(Ok(("s", x)), ns)]

    def context(m, none=(), endpoint="old", prefixes=None):
        """a session: every part of it present, but those of none"""
        I = m.I
        r = []
        for n, t in m.P.adts[RUDOF]["v"][0]["f"]:
            if n in KEEP:
                r.append(I.sym("in", n))
            elif n == "prefixes" and prefixes is not None:
                r.append(prefixes)
            else:
                r.append(NONE if n in none else Some(I.sym("in", n)))
        d = {"writer": TERM, "rudof": ("a", RUDOF, "", tuple(r)), "active_endpoint": NONE if endpoint is None else Some(("s", endpoint)), "debug_level": ("i", 0)}
        return ("a", p12.CTXA, "", tuple(d.get(n, I.sym("in", n)) for n, _ in m.P.adts[p12.CTXA]["v"][0]["f"]))

    def session(m, lines, ctx=None, **kw):
        """what a session of these lines does: per outcome (events after the banner, the context afterwards), or a text when nothing is determined"""
        m.set(script=lines, **kw)
        I = m.I
        I.memo.clear(); I.steps = 0
        r = []
        for ret, cells, G in I.exec_fn(m.run, (("p", -1, ()),), (ctx or m.context(),), {}, (), ()):
            if ret[:1] != ("a",) or ret[2] != "Ok" or cells[0][0] != "a":
                r.append(("ends with %s" % I.show(ret)[:80], (), {}))
                continue
            tr = G.get(("tr",), ())
            at = next((i for i, e in enumerate(tr) if e[0] == "line"), 0)
            r.append((None, tr[at:], m.ctx(cells[0])))
        return r


def fin(I, p, st):
    from vf.natives import final_ptr
    return final_ptr(I, p, st)


def tv(x):
    if isinstance(x, bool):
        return ("a", TV, "Boolean", (("b", x),))
    if isinstance(x, dict):
        return ("a", TV, "Table", (("L", tuple(("t", (("s", k), tv(y))) for k, y in x.items())),))
    if isinstance(x, int):
        return ("a", TV, "Integer", (("i", x),))
    if isinstance(x, float):
        return ("a", TV, "Float", (("fl", repr(x)),))
    return ("a", TV, "String", (("s", x),))


def plain(v):
    if v[0] != "a" or v[1] != TV:
        return "?" + str(v)[:60]
    if v[2] == "Table":
        return {e[1][0][1]: plain(e[1][1]) for e in v[3][0][1]}
    if v[2] == "Float":
        return float(v[3][0][1]) if v[3][0][0] == "fl" else "?"
    return v[3][0][1]


def accepted(x, known):
    """the configuration that a text gives: what is not known is dropped, a wrong type refused"""
    r = {}
    for k, v in x.items():
        if k not in known:
            continue
        t = known[k]
        if isinstance(t, dict):
            if not isinstance(v, dict):
                return None
            v = accepted(v, t)
            if v is None:
                return None
        elif type(v) is not t:
            return None
        r[k] = v
    return r


def words(t):
    return tuple(shlex.split(t))


def value(m, name, **kw):
    """a parsed subcommand: nothing given but kw"""
    cli = m.P.adts[CMD]
    v = next(v for v in cli["v"] if v["n"] == name)
    args = m.P.ty(cli["crate"], v["f"][0][1])["s"]
    fs = m.A.field_types(args)
    row = {n: m.A.default(n, s, False) for n, _, _, s in fs}
    for k, x in (("shell", "Bash"),):
        if k in row:
            row[k] = x
    if isinstance(row.get("common"), dict):
        row["common"] = dict(row["common"], **{k: x for k, x in kw.items() if k in row["common"]})
    row.update({k: x for k, x in kw.items() if k in row})
    return ("a", CMD, name, (("a", args, "", tuple(m.A.val(cr, t, row[n]) for n, cr, t, s in fs)),))


def has(m, name, k):
    cli = m.P.adts[CMD]
    v = next(v for v in cli["v"] if v["n"] == name)
    args = m.P.ty(cli["crate"], v["f"][0][1])["s"]
    fs = {n: s for n, _, _, s in m.A.field_types(args)}
    if k in fs:
        return True
    a = m.P.adts.get(fs.get("common", ""))
    return bool(a) and k in [n for n, _, _, _ in m.A.field_types(fs["common"])]


def acts(tr):
    return [e for e in tr if e[0] not in ("print", "flush", "line", "open")]


def judge(m, c, rid, key, got, want, gone, endpoint="old", prefixes=None, says=None, printed=None, flushed=None, wrote=True):
    """one obligation: the actions of the session, what it still has, where it prints afterwards"""
    bad = []
    if not got:
        bad.append("nothing determined")
    for why, tr, ctx in got:
        if why:
            bad.append(why)
            continue
        a = [e[:3] + (sorted(e[3]),) if e[0] == "execute" else e for e in acts(tr)]
        if a != want:
            bad.append("does %s instead of %s" % (a, want))
        g = sorted(m.gone(ctx))
        w = sorted(gone)
        if g != w:
            bad.append("the session is then without %s instead of %s" % (g, w))
        e = ctx["active_endpoint"]
        e = None if e == NONE else m.I.show(e[3][0]).strip("'") if e[0] == "a" else "?"
        if e != endpoint:
            bad.append("the active endpoint is then %s instead of %s" % (e, endpoint))
        if m.I.show(ctx["writer"]) != "TERMINAL":
            bad.append("the session then prints to %s" % m.I.show(ctx["writer"])[:60])
        kept = dict(zip(m.fields, ctx["rudof"][3]))
        for n in m.fields:
            if n != "prefixes" and kept[n] != NONE and n not in gone and kept[n] not in (Some(m.I.sym("in", n)), m.I.sym("in", n)):
                bad.append("%s is changed" % n)
        if prefixes is not None:
            p = kept["prefixes"]
            p = [] if p == NONE else p[3][0][3][0][1] if p[0] == "a" and p[3][0][0] == "a" else None
            p = None if p is None else sorted((e[1][0][1], (m.I.show(e[1][1]) if e[1][1][0] != "s" else e[1][1][1])) for e in p)
            if p != sorted(prefixes):
                bad.append("the prefixes are then %s instead of %s" % (p, sorted(prefixes)))
        elif "prefixes" not in gone and kept["prefixes"] not in (NONE, Some(m.I.sym("in", "prefixes"))):
            bad.append("the prefixes are changed")
        out = "".join(e[2] for e in tr if e[0] == "print" and e[1] == "TERMINAL")
        if printed is not None and [int(x) for x in re.findall(r"\d+", out)] != printed:
            bad.append("it says %r, not the numbers %s" % (out[:80], printed))
        for s in says or ():
            if s not in out:
                bad.append("it says %r without %s" % (out[:120], s))
        if flushed is not None:
            i = [k for k, e in enumerate(tr) if e[0] == "execute"]
            if not any(e == ("flush", flushed) for e in tr[i[-1] if i else 0:]):
                bad.append("%s is not flushed" % flushed)
    c.ob(rid, key, m.run.where(), not bad, "%s: %s" % (key, "; ".join(dict.fromkeys(bad))))


NOTHING = ()


def builtins(c, m):
    P = m.P
    n = 0
    # reset
    every = set(m.fields) - set(KEEP) | {"ENDPOINT"}
    of = {k: set(v.split()) for k, v in RESET.items()}
    rows = [("reset", every), ("reset all", every)] + [("reset " + k, of[k]) for k in RESET] + [("reset %s %s" % (a, b), of[a] | of[b]) for a, b in itertools.combinations(RESET, 2)]
    rows += [("reset %s %s" % (b, a), of[a] | of[b]) for a, b in itertools.combinations(RESET, 2)]
    rows += [("reset " + x, set()) for x in ("x", "data x", "x data", "data all", "all data", "Data", "shacl shapes", "shex shacl y dctap")] + [("reset  data   shex", of["data"] | of["shex"])]
    for line, g in rows:
        judge(m, c, "reset", line, m.session((line,)), [], g, endpoint=None if "ENDPOINT" in g else "old")
        n += 1
    c.floor("reset", n, "reset lines")
    # endpoint
    n = 0
    for line, want, ep, says in (("endpoint", [], "old", ["old"]), ("endpoint wikidata", [("load_data", (("endpoint", "wikidata"),))], "wikidata", ["wikidata"]), ("endpoint dbpedia", [("load_data", (("endpoint", "dbpedia"),))], "dbpedia", ["dbpedia"]),
                                 ("endpoint nope", [], "old", ["nope", "wikidata", "dbpedia"]), ("endpoint a b", [], "old", []), ("endpoint wikidata dbpedia", [], "old", []), ("endpoint WIKIDATA", [], "old", []), ("endpoint 'wikidata '", [], "old", [])):
        judge(m, c, "endpoint", line, m.session((line,)), want, (), endpoint=ep, says=says)
        n += 1
    judge(m, c, "endpoint", "none active", m.session(("endpoint",), ctx=m.context(endpoint=None)), [], ("ENDPOINT",), endpoint=None, says=["wikidata", "dbpedia"])
    judge(m, c, "endpoint", "endpoint wikidata, not loaded", m.session(("endpoint wikidata",), failing=("load_data",)), [("load_data", (("endpoint", "wikidata"),)), ("error",)], ())
    judge(m, c, "endpoint", "two in turn", m.session(("endpoint wikidata", "endpoint nope", "endpoint dbpedia", "endpoint")), [("load_data", (("endpoint", "wikidata"),)), ("load_data", (("endpoint", "dbpedia"),))], (), endpoint="dbpedia", says=["dbpedia"])
    judge(m, c, "endpoint", "reset and again", m.session(("reset endpoint", "endpoint wikidata")), [("load_data", (("endpoint", "wikidata"),))], (), endpoint="wikidata")
    c.floor("endpoint", n + 4, "endpoint lines")
    # prefixes
    n = 0
    pm = next((a for a in P.adts if a.endswith("prefix_map::PrefixMap")), None)
    if c.anchor("prefixes", "PrefixMap", pm, "the map of prefixes"):
        def mk(d):
            fs = P.adts[pm]["v"][0]["f"]
            return Some(("a", pm, "", tuple(("L", tuple(("t", (("s", k), ("s", v))) for k, v in d.items())) if P.ty(P.adts[pm]["crate"], t)["s"].startswith("indexmap") else FALSE if P.ty(P.adts[pm]["crate"], t)["s"] == "bool" else NONE for f, t in fs)))
        A = {"a": "http://A/", "b": "http://B/"}
        rows = [("prefixes add c http://C/", dict(A, c="http://C/"), 0), ("prefixes add a http://C/", dict(A, a="http://C/"), 0), ('prefixes add "" http://C/', dict(A, **{"": "http://C/"}), 0), ("prefixes add c nonsense", A, 1),
                ("prefixes rm a", {"b": A["b"]}, 0), ("prefixes rm b", {"a": A["a"]}, 0), ("prefixes rm z", A, 1), ("prefixes rename a c", {"b": A["b"], "c": A["a"]}, 0), ("prefixes rename a b", {"b": A["a"]}, 0), ("prefixes rename z c", A, 1),
                ("prefixes rename a a", A, 0), ("prefixes copy a c", dict(A, c=A["a"]), 0), ("prefixes copy a b", dict(A, b=A["a"]), 0), ("prefixes copy z c", A, 1), ("prefixes", A, 0), ("prefixes add c", A, 0), ("prefixes rm", A, 0),
                ("prefixes rename a", A, 0), ("prefixes zap a", A, 0), ("prefixes rm a b", A, 0), ("prefixes add c http://C/ x", A, 0)]
        for base, rs in ((A, rows), ({}, [("prefixes add c http://C/", {"c": "http://C/"}, 0), ("prefixes rm a", {}, 1), ("prefixes rename a b", {}, 1), ("prefixes copy a b", {}, 1), ("prefixes", {}, 0)])):
            for line, after, err in rs:
                for start in ([mk(base)] if base else [mk(base), NONE]):
                    key = "%s, %d declared%s" % (line, len(base), "" if start != NONE else " yet")
                    gone = {"prefixes"} if start == NONE and not after else set()
                    judge(m, c, "prefixes", key, m.session((line,), ctx=m.context(prefixes=start)), [("error",)] if err else [], gone, prefixes=list(after.items()))
                    n += 1
        judge(m, c, "prefixes", "in turn", m.session(("prefixes add c http://C/", "prefixes rename a d", "prefixes rm b", "prefixes copy c b"), ctx=m.context(prefixes=mk(A))), [], (), prefixes=[("b", "http://C/"), ("c", "http://C/"), ("d", "http://A/")])
        c.floor("prefixes", n + 1, "prefixes lines")
    # config
    n = 0
    known = {"base_iri": str, "shex": {"max_steps": int, "strict": bool, "name": str, "depth": {"x": int}}}
    root = {"base_iri": "http://e/", "shex": {"max_steps": 20, "strict": True, "depth": {"x": 1}}}
    def put(k, v):
        r = json.loads(json.dumps(root))
        d = r
        for x in k.split(".")[:-1]:
            d = d[x]
        d[k.split(".")[-1]] = v
        return r
    rows = [("base_iri http://x/", "base_iri", "http://x/"), ("shex.max_steps 3", "shex.max_steps", 3), ("shex.strict false", "shex.strict", False), ("shex.name abc", "shex.name", "abc"), ("shex.depth.x -7", "shex.depth.x", -7), ("shex.max_steps x", None, 1),
            ("shex.max_steps 1.5", None, 1), ("shex.strict yes", None, 1), ("shex.nope 3", None, 0), ("nope 3", None, 0), ("nope.x 3", None, 0), ("shex.depth.x.y 3", None, 0), ("base_iri.x 3", None, 0), ("shex.max_steps", None, 0), ("shex 3", None, 1)]
    for t, k, v in rows:
        want = [("update_config", json.dumps(put(k, v), sort_keys=True))] if k else [("error",)] if v else []
        judge(m, c, "config", "config set " + t, m.session(("config set " + t,), root=root, known=known), want, ())
        n += 1
    for t, says in (("", None), ("base_iri", ["http://e/"]), ("shex.max_steps", None), ("nope", ["nope"]), ("shex.nope", ["shex.nope"]), ("a b", None)):
        judge(m, c, "config", "config get " + t, m.session(("config get " + t,), root=root, known=known), [], (), says=says)
        n += 1
    c.floor("config", n, "config lines")
    # the system's shell
    n = 0
    for sh in (None, "/bin/zsh"):
        for line, cmd in (("!ls", "ls"), ("! ls -l ", "ls -l"), ("!ls | wc > 'a b'", "ls | wc > 'a b'"), ("!", None), ("!  ", None), ("!!x", "!x"), ("!exit", "exit"), ("!reset data", "reset data")):
            for fail in (False, True):
                if cmd is None and fail:
                    continue
                want = [] if cmd is None else [("run", (sh or "/bin/sh", "-c", cmd))] + ([("error",)] if fail else [])
                got = m.session((line,), shell=sh, failing=("run",) if fail else ())
                judge(m, c, "external", "%s with %s%s" % (line, sh or "no $SHELL", ", failing" if fail else ""), got, want, ())
                n += 1
    c.floor("external", n, "lines for the system's shell")


def loop(c, m):
    """which lines are obeyed"""
    x = lambda t: ("run", ("/bin/sh", "-c", t))
    E = ("error",)
    rows = [(("!a", "exit", "!b"), [x("a")]), (("!a", "quit", "!b"), [x("a")]), (("!a", " exit ", "!b"), [x("a")]), (("!a", "EOF", "!b"), [x("a")]), (("", "  ", "!a"), [x("a")]), (("INT", "!a", "INT", "!b"), [x("a"), x("b")]),
            (("help", "?", "!a"), [x("a")]), (("!echo 'a", "b'", "!c"), [x("echo 'a\nb'"), x("c")]), (('!echo "a', "", 'b"', "!c"), [x('echo "a\n\nb"'), x("c")]), (("!echo 'a", "exit", "x'", "!c"), [x("echo 'a\nexit\nx'"), x("c")]),
            (("!echo 'a", "EOF", "!b"), [E]), (("!echo 'a", "INT", "!b"), [x("b")]), (("!a", "IO", "!b"), [x("a"), E]), (("  !a  ",), [x("a")]), (("exit now", "!a"), [("parse", ("exit", "now")), x("a")]), (("Exit", "!a"), [("parse", ("Exit",)), x("a")]),
            (("nonsense", "!a"), [("parse", ("nonsense",)), x("a")]), (("node -n 'a b' \"c d\" e\\ f",), [("parse", ("node", "-n", "a b", "c d", "e f"))])]
    for lines, want in rows:
        judge(m, c, "loop", " / ".join(lines), m.session(lines), want, ())
    judge(m, c, "loop", "errors go on", m.session(("!a", "!b", "prefixes rm zz", "!c"), failing=("run",), ctx=m.context(none=("prefixes",))), [x("a"), E, x("b"), E, E, x("c"), E], ("prefixes",), prefixes=[])
    c.floor("loop", len(rows) + 1, "sessions")


def shorthand(c, m):
    """a subcommand and a single value"""
    n = 0
    names = sorted(set(BARE) | {"data", "query", "validate", "shex-validate", "shacl-validate", "pgschema-validate", "convert", "compare", "mcp", "completion", "shell", "nonsense", "config"})
    for k in names:
        rows = [(k + " v", (k, BARE[k], "v") if k in BARE else (k, "v")), (k, (k,)), (k + " -v", (k, "-v")), (k + " v w", (k, "v", "w")), (k + " -s v", (k, "-s", "v")), (k + " 'a b'", (k, BARE[k], "a b") if k in BARE else (k, "a b")),
                (k + " --merge", (k, "--merge") if k != "data" else (k,)), (k + " v --merge", (k, "v", "--merge") if k != "data" else (k, "v")), (k + " --merge v", (k, "--merge", "v") if k != "data" else (k, "v")), (k + " :a", (k, BARE[k], ":a") if k in BARE else (k, ":a"))]
        for line, toks in rows:
            judge(m, c, "words", line, m.session((line,)), [("parse", toks)], ())
            n += 1
    c.floor("words", n, "lines")


STATS = {"Data": ("Rdf", 1), "Shex": ("", 1), "Shacl": ("", 1), "DCTap": ("", 1), "Pgschema": ("", 2), "Service": ("", 2)}
RES = {"Shex": "schema", "Shacl": "shapes", "DCTap": "file", "Pgschema": "schema", "Service": "service"}


def commands(c, m):
    """a subcommand runs on the session, its output to the terminal or to its own file"""
    n = 0
    for v in m.P.adts[CMD]["v"]:
        name = v["n"]
        cm = has(m, name, "output")
        for out, force, exists in ((None, False, False), ("-", False, False), ("-", True, True), ("f", False, False), ("f", False, True), ("f", True, True)) if cm else ((None, False, False),):
            srcs = [{}]
            if has(m, name, "data"):
                srcs += [{"data": ("d",)}] + ([{"endpoint": "ep"}, {"backend": ("Endpoint", "ep")}, {"backend": "Memory"}, {"data": ("d",), "endpoint": "ep"}] if has(m, name, "endpoint") else [])
            if name in RES:
                srcs += [dict(s, **{RES[name]: "r"}) for s in srcs]
            for src in srcs:
                new = bool(src.get("data")) or "endpoint" in src or src.get("backend") == ("Endpoint", "ep")
                stats = out in (None, "-") and name in STATS and (new if name == "Data" else name in RES and RES[name] in src or name == "Shacl" and new)
                for merge in ((False, True) if name == "Data" else (False,)):
                    for fail in (None, "create", "execute") + (("flush", "writer") if out == "f" else ()):
                        val = value(m, name, output=out, force_overwrite=force, **src)
                        line = ("data x --merge" if merge else "data x" if name == "Data" else "word x y")
                        toks = tuple(t for t in words(line) if t != "--merge")
                        key = "%s%s%s%s%s%s" % (name, "".join(" %s" % k if k != "backend" else " backend %s" % (x if isinstance(x, str) else "endpoint=") for k, x in src.items()), " --merge" if merge else "", "" if out is None else " -o " + out + (" (forced)" if force else ""),
                                                " (existing)" if exists else "", ", %s fails" % fail if fail else "")
                        want, gone = [("parse", toks)], set()
                        err = fail == "create" or out == "f" and (fail == "writer" or exists and not force)
                        if name == "Shell":
                            err = False
                        elif not err:
                            if name == "Data" and new and not merge:
                                gone = {"data"}
                            w = "FILE('f', %s)" % force if out == "f" else "SINK" if stats else "TERMINAL"
                            want.append(("execute", name, w, sorted(gone)))
                            err = fail in ("execute", "flush")
                        if err:
                            want.append(("error",))
                        for loaded in (("Rdf", 7, 3), ("Pg", 7, 3), None) if stats and not err else (("Rdf", 7, 3),):
                            two = name in ("Pgschema", "Service") or name == "Data" and loaded and loaded[0] == "Pg"
                            nums = None if not stats or err else [] if loaded is None else [7, 3] if two else [7]
                            got = m.session((line,), parse={toks: val}, failing=(fail,) if fail else (), exists=exists, loaded=loaded)
                            judge(m, c, "commands", key + ("" if loaded == ("Rdf", 7, 3) else ", %s" % (loaded or ("nothing",))[0]), got, want, gone, printed=nums, flushed="FILE('f', %s)" % force if out == "f" and len(want) > 1 and want[-1] != ("error",) else None)
                            n += 1
    # one command after the other
    d, s, q = value(m, "Data", data=("d",)), value(m, "Shex", schema="s"), value(m, "Query")
    ps = {("data", "d"): d, ("shex", "-s", "s"): s, ("query",): q, ("data", "d", "-o", "f"): value(m, "Data", data=("d",), output="f")}
    P_ = lambda *t: ("parse", t)
    rows = [(("data d", "shex s", "query"), [P_("data", "d"), ("execute", "Data", "SINK", ["data"]), P_("shex", "-s", "s"), ("execute", "Shex", "SINK", ["data"]), P_("query"), ("execute", "Query", "TERMINAL", ["data"])], {"data"}),
            (("data d -o f", "query"), [P_("data", "d", "-o", "f"), ("execute", "Data", "FILE('f', False)", ["data"]), P_("query"), ("execute", "Query", "TERMINAL", ["data"])], {"data"}),
            (("data d --merge", "query"), [P_("data", "d"), ("execute", "Data", "SINK", []), P_("query"), ("execute", "Query", "TERMINAL", [])], set()),
            (("reset shex", "query"), [P_("query"), ("execute", "Query", "TERMINAL", sorted(RESET["shex"].split()))], set(RESET["shex"].split()))]
    for lines, want, gone in rows:
        judge(m, c, "commands", " / ".join(lines), m.session(lines, parse=ps, loaded=("Rdf", 7, 3)), want, gone)
    bad = [P_("data", "d", "-o", "f"), ("execute", "Data", "FILE('f', False)", ["data"]), ("error",), P_("query"), ("execute", "Query", "TERMINAL", ["data"]), ("error",)]
    judge(m, c, "commands", "after a failing redirected command", m.session(("data d -o f", "query"), parse=ps, failing=("execute",)), bad, {"data"})
    c.floor("commands", n + len(rows) + 1, "command lines")


def run(c):
    P = c.prog
    c.rule("loop", "every line is obeyed in turn, a line with an open quote goes on in the next, blank and interrupted lines do nothing, exit, quit or the end of the input ends the session, an error does not")
    c.rule("words", "the words of a line are given to the parser of the subcommands as they are, but for --merge of `data` and the flag that a single value of some subcommands gets")
    c.rule("commands", "a subcommand runs on the state of the session: new data replaces the loaded data unless --merge; -o FILE receives the output of this one command, and the terminal that of the next; "
           "a command that loads prints counts instead; a line that is refused (no such command, an existing output file) changes nothing")
    c.rule("reset", "reset clears the parts of the session that it names, all of them without a name, none when a name is unknown")
    c.rule("endpoint", "endpoint NAME activates a registered endpoint, and otherwise nothing")
    c.rule("prefixes", "prefixes add, rm, rename and copy change the one declaration that they name")
    c.rule("config", "config set changes one known key to a value of its type, config get none")
    c.rule("external", "! gives the rest of the line to the system's shell")
    f = [f for f in P.fns.values() if f.id.startswith("rudof_cli::shell::") and f.name == "run" and f.kind == "fn" and f.argc == 1]
    if not c.anchor("loop", "run", f if len(f) == 1 else None, "the shell's loop") or not c.anchor("loop", "Command", P.adts.get(CMD) and P.adts.get(p12.CTXA) and P.adts.get(RUDOF), "the types of a session"):
        return
    m = S(P, f[0])
    if not c.anchor("loop", "ReplLine", m.repl, "the parsed line"):
        return
    builtins(c, m)
    loop(c, m)
    shorthand(c, m)
    commands(c, m)
