"""P10: every view of the data (triple look-ups, arcs, property paths' steps, SPARQL store, endpoints, their union) is exactly the loaded graph.
The access functions are interpreted over finite graphs of named terms, one query pattern at a time; the store cache is an inductive invariant."""
import itertools, re
from vf.absint import T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *
from vf.oxmock import *

TITLE = "Every view of the data is exactly the loaded graph"
OX = "rudof_rdf::rdf_impl::oxigraph::in_memory::OxigraphInMemory"
EP = "rudof_rdf::rdf_impl::oxigraph::endpoint::OxigraphEndpoint"
BACK = "rudof_rdf::rdf_impl::backend::RdfBackend"
DATA = "sparql_service::srdf_data::rdf_data::RdfData"
NR = "rudof_rdf::rdf_core::neighs_rdf::NeighsRDF"
AR = "rudof_rdf::rdf_core::async_rdf::AsyncRDF"
QR = "rudof_rdf::rdf_core::query::query_rdf::QueryRDF"
BR = "rudof_rdf::rdf_core::build_rdf::BuildRDF"
ANY = ("a", "rudof_rdf::rdf_core::matcher::Any", "Any", ())
RT = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
REIF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#reifies"

LIT = ("lit", "x")
G1 = [("a", "p", "b"), ("a", "p", "c"), ("a", "p", LIT), ("a", "q", "b"), ("b", "p", "c"), ("b", "q", LIT), ("_:n", "p", "b"), ("_:n", "q", "_:n"), ("c", "r", "_:n"), ("a", RT, "C"), ("b", RT, "C"), ("b", RT, "D"), ("_:n", RT, "C")]
G2 = [("a", "p", "b"), ("a", "p", "d"), ("d", "q", LIT), ("b", "q", "b"), ("a", "s", "b"), ("d", RT, "C"), ("a", RT, "D")]
G3 = [("c", "p", "a"), ("a", "q", ("lit", "y")), ("b", "p", "c")]
SUBJ = [None, "a", "b", "_:n", "d", "z"]
PRED = [None, "p", "q", RT, "s", "z"]
OBJ = [None, "b", "c", LIT, "_:n", "C", ("lit", "y"), "z"]
RS = ("L", ())


def sel(g, s, p, o):
    return frozenset(t for t in g if (s is None or t[0] == s) and (p is None or t[1] == p) and (o is None or t[2] == o))


def tk(x):
    """the term of a SPARQL token"""
    return x[1:-1] if x.startswith("<") and x.endswith(">") else ("lit", x[1:-1]) if x.startswith('"') and x.endswith('"') and len(x) > 1 else x if x.startswith("_:") else None


def ask(g, text):
    """rows (dicts) of a query of one triple pattern, with an optional restriction of a variable to a list; None when it is not of that shape"""
    m = re.match(r"\s*select\s+(distinct\s+)?(\*|(?:\?\w+\s*)+)\s*(?:where\s*)?\{\s*(.*?)\s*\}\s*$", text, re.I | re.S)
    if not m:
        return None
    body, flt = m.group(3), None
    f = re.match(r"(.*?)\s*\.?\s*filter\s*\(\s*\?(\w+)\s+in\s*\((.*)\)\s*\)\s*\.?\s*$", body, re.I | re.S)
    v = re.match(r"(?:(.*?)\s*\.?\s*)?values\s+\?(\w+)\s*\{(.*?)\}\s*\.?\s*(.*)$", body, re.I | re.S)
    if f:
        body, flt = f.group(1), (f.group(2), [tk(x.strip()) for x in f.group(3).split(",")] if f.group(3).strip() else [])
    elif v:
        body, flt = (v.group(1) or "") + (v.group(4) or ""), (v.group(2), [tk(x) for x in v.group(3).split()])
    ts = re.findall(r"<[^>]*>|\?\w+|_:\w+|\"[^\"]*\"|\S+", body)
    if ts and ts[-1] == ".":
        ts = ts[:-1]
    if len(ts) != 3 or flt and None in flt[1]:
        return None
    pat = [("?", t[1:]) if t.startswith("?") else tk(t) for t in ts]
    if None in pat:
        return None
    # a blank node label in a query is a variable: never used to name a node
    pat = [("?", "\0" + p) if isinstance(p, str) and p.startswith("_:") else p for p in pat]
    proj = None if m.group(2).strip() == "*" else re.findall(r"\?(\w+)", m.group(2))
    rows = []
    for t in g:
        env, ok = {}, True
        for p, x in zip(pat, t):
            if isinstance(p, tuple) and p[0] == "?":
                ok &= env.setdefault(p[1], x) == x
            else:
                ok &= p == x
        if ok and (flt is None or env.get(flt[0]) in flt[1]):
            r = {k: x for k, x in env.items() if not k.startswith("\0") and (proj is None or k in proj)}
            if not m.group(1) or r not in rows:
                rows.append(r)
    return rows


class M:
    """an interpreter over graphs: in-memory ones, endpoints that answer triple-pattern queries, and their union"""

    def __init__(self, P, extra=()):
        self.P, self.ox, self.ep, self.failing, self.asked, self.bad, self.stores, self.loads = P, Ox(P), {}, set(), [], [], {}, 0
        self.qtext, self.qres = [], None
        hs = list(extra) + [(r"OxigraphEndpoint as .*QueryRDF>::query_(select|ask|construct)$|OxigraphEndpoint::query_\w+_async$", self.h_query),
                            (r"QueryRDF::query_(select|ask|construct)$", self.h_query),
                            (r"(std|core)::sync::\w+(?:::\w+)*::RwLock(?:::)?(?:<.*>)?::(read|write)$|Mutex(?:::)?(?:<.*>)?::lock$", self.h_lock),
                            (r"prefixmap::prefix_map::PrefixMap(?:::)?(?:<.*?>)?::merge$", lambda I, s, n, c, a, st: [(UNIT, st)]),
                            (r"tracing|__CALLSITE|::__is_enabled", None),
                            (r"oxigraph::(store|sparql)", self.h_store), (r"SparqlEvaluator", self.h_store), (r"oxigraph::sparql::", self.h_store)]
        hs = [h for h in hs if h[1]] + [(r"Rdf>?::term_as_object$", lambda I, s, n, c, a, st: [(Ok(("a", "OBJ", "", (I.deref(a[0], st),))), st)])]
        self.I = new_interp(P, hs + IRIS_OX + self.ox.handlers(), seq_cap=64, int_cap=1000, inline_display=True, max_depth=40)
        self.force = P.fns.get("vmodels::m_iter_collect_seq")

    # ---- values
    def struct(self, adt, **kw):
        names = [f[0] for f in self.P.adts[adt]["v"][0]["f"]]
        return ("a", adt, "", tuple(kw[n] if n in kw else self.I.sym("in", n) for n in names))

    def mem(self, g, store=NONE, **kw):
        return self.struct(OX, focus=NONE, graph=self.ox.graph(g), base=NONE, bnode_counter=("i", 0), store=store, **kw)

    def endpoint(self, name, g):
        self.ep[name] = list(g)
        return self.struct(EP, endpoint_iri=("s", name), triple_cache=("L", ()))

    def backend(self, v):
        return ("a", BACK, {OX: "InMemory", EP: "Endpoint"}[v[1]], (v,))

    def data(self, primary, eps, catalog=()):
        m = lambda xs: ("L", tuple(("t", (("s", n), e)) for n, e in xs))
        return self.struct(DATA, primary=self.backend(primary), endpoints=m(catalog), use_endpoints=m(eps))

    def store(self, quads, committed=True):
        n = len(self.stores)
        self.stores[n] = [list(quads), committed]
        return ("a", "STORE", "", (("i", n),))

    def rows(self, rows, adt="rudof_rdf::rdf_core::query::query_solution"):
        sol = lambda r: ("a", "rudof_rdf::rdf_core::query::query_solution::QuerySolution", "", (
            ("L", tuple(("a", self.VN, "", (("s", k),)) for k in r)), ("L", tuple(NONE if r[k] is None else Some(term(r[k])) for k in r))))
        return ("a", "rudof_rdf::rdf_core::query::query_solutions::QuerySolutions", "", (("L", tuple(sol(r) for r in rows)), self.I.sym("in", "pm")))

    @property
    def VN(self):
        return [a for a in self.P.adts if a.startswith("rudof_rdf::") and a.endswith("::VarName")][0]

    def text(self, v, st):
        """a text with the terms displayed in it"""
        v = self.I.deref(v, st)
        t = self.I.tag(v) if v[0] == "y" else None
        if t and t[0] == "cat":
            ps = [self.text(x, st) for x in t[1][1]]
            return None if None in ps else "".join(ps)
        if t and t[0] == "fmt":
            x = self.I.deref(t[3], st)
            return self.text(x, st) if x[0] == "s" else show_term(name(x)) if name(x) is not None else self.text(x, st)
        return v[1] if v[0] == "s" else None

    # ---- mocks
    def h_lock(self, I, site, nm, callee, args, st):
        v = I.deref(args[0], st)
        return [(Ok(v[3][0] if v[0] == "a" and v[1] == "LOCK" else args[0]), st)]

    def h_query(self, I, site, nm, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != EP:
            return None
        n, q = fields(self.P, v)["endpoint_iri"], self.text(args[1], st)
        n = n[1] if n[0] == "s" else None
        if q is None or n not in self.ep:
            self.bad.append("the text of a query to an endpoint cannot be determined")
            return [(Err(I.sym("in", "?")), st)]
        self.asked.append((n, q))
        kind = re.search(r"query_(\w+?)(?:_async)?$", nm).group(1)
        if n in self.failing:
            return [(Err(I.sym("in", "E")), st)]
        if kind == "construct":
            return [(Ok(("s", "<%s %s>" % (n, q))), st)]
        if kind == "ask":
            return [(Ok(("b", bool(self.ep[n]) and self.ep[n] != "no")), st)]
        rs = self.ep[n] if isinstance(self.ep[n], tuple) else ask(self.ep[n], q)
        if rs is None:
            self.bad.append("the query %r is not a triple pattern" % q)
            return [(Err(I.sym("in", "?")), st)]
        return [(Ok(self.rows(list(rs))), st)]

    def h_store(self, I, site, nm, callee, args, st):
        n = re.sub(r"::<.*?>(?=::|$)", "", nm)
        m = n.rsplit("::", 1)[1]
        a = [I.deref(x, st) for x in args]
        if re.search(r"store::Store::new$", n):
            return [(Ok(self.store([])), st)]
        if m in ("new", "default") and "SparqlEvaluator" in n:
            return [(("a", "EVAL", "", ()), st)]
        if not a or a[0][0] != "a":
            return None
        k = a[0][1]
        if k == "EVAL" and m == "parse_query":
            if a[1][0] != "s":
                return None
            if a[1][1] == "bad":
                return [(Err(I.sym("in", "E")), st)]
            return [(Ok(("a", "PREP", "", (a[1],))), st)]
        if k == "EVAL":
            return [(a[0], st)]
        if k == "PREP" and m in ("on_store", "on_queryable_dataset"):
            return [(("a", "ON", "", (a[0][3][0], a[1])), st)]
        if k == "ON" and m == "execute":
            q = a[0][3][0][1]
            self.qtext.append((q, a[0][3][1]))
            return [(self.qres, st)]
        if k == "STORE":
            s = self.stores[a[0][3][0][1]]
            if m == "bulk_loader":
                s[1] = False
                return [(("a", "LOADER", "", a[0][3]), st)]
            if m in ("insert", "remove"):
                x = spo(a[1])
                if x is None:
                    return None
                (s[0].append if m == "insert" else s[0].remove)(x) if (m == "insert") != (x in s[0]) else None
                return [(Ok(TRUE), st)]
            if m == "clear":
                del s[0][:]
                return [(Ok(UNIT), st)]
            if m in ("extend",):
                return self.load(I, a[1], s, a[0], st, site)
            if m == "clone":
                return [(a[0], st)]
            return None
        if k == "LOADER":
            s = self.stores[a[0][3][0][1]]
            if m == "commit":
                s[1] = True
                return [(Ok(UNIT), st)]
            if m in ("load_quads", "load_ok_quads"):
                return self.load(I, a[1], s, args[0], st, site)
            if m.startswith(("with_", "without_", "on_")):
                return [(a[0], st)]
        return None

    def load(self, I, it, s, ret, st, site):
        xs = self.seq(it, st)
        if xs is None or None in [spo(x) for x in xs]:
            self.bad.append("what is loaded into the store cannot be determined")
            return [(Ok(ret), st)]
        if any(x[1] == "QUAD" and not (x[3][3][0] == "a" and x[3][3][2] == "DefaultGraph") for x in xs):
            self.bad.append("a quad outside the default graph is loaded into the store")
        for x in xs:
            if spo(x) not in s[0]:
                s[0].append(spo(x))
        return [(Ok(ret), st)]

    def seq(self, v, st):
        """the elements of an iterator value"""
        if v[0] == "L":
            return v[1]
        self_memo = self.I.memo
        outs = self.I.exec_fn(self.force, (v,), (), dict(st.G), (), ()) if not st.env else None
        if outs is None:
            from vf.absint import Frame
            outs = self.I.exec_fn(self.force, (v,), (), dict(st.G), (), ())
        vals = {o[0] for o in outs}
        r = vals.pop() if len(vals) == 1 else T
        return r[1] if r[0] == "L" else None

    # ---- running
    def call(self, f, *args, cells=None):
        self.I.memo.clear()
        self.I.steps = 0
        self.asked, self.bad = [], []
        outs = self.I.exec_fn(f, tuple(args), cells or (), {}, (), ())
        res = []
        for r, cs, G in outs:
            if r[0] == "c" and r[1] in self.P.fns and self.P.fns[r[1]].kind == "coroutine":
                b = self.P.fns[r[1]]
                res += self.I.exec_fn(b, (r,) + (T,) * (b.argc - 1), cs, G, (), ())
            else:
                res.append((r, cs, G))
        return res

    def result(self, outs):
        """('ok', value with iterators forced) or 'err' or a text for an undetermined outcome"""
        got = set()
        for r, cs, G in outs:
            if r[0] == "a" and r[2] == "Ok":
                v = r[3][0]
                if v[0] == "it" or v[0] == "a" and v[1].startswith("vmodels::"):
                    self.I.memo.clear()
                    xs = set()
                    for o in self.I.exec_fn(self.force, (v,), cs, G, (), ()):
                        xs.add(o[0])
                    v = xs.pop() if len(xs) == 1 else T
                got.add(("ok", v))
            elif r[0] == "a" and r[2] == "Err":
                got.add("err")
            else:
                got.add("?" + self.I.show(r)[:100])
        if self.bad:
            return self.bad[0]
        return got.pop() if len(got) == 1 else "undetermined: " + " | ".join(sorted(str(x)[:80] for x in got)) if got else "no outcome (diverges)"

    def triples(self, outs):
        r = self.result(outs)
        if isinstance(r, tuple):
            if r[1][0] != "L":
                return "?" + self.I.show(r[1])[:100]
            xs = [spo(x) for x in r[1][1]]
            return tuple(sorted(xs, key=str)) if None not in xs else "?"
        return r

    def terms(self, outs):
        r = self.result(outs)
        if isinstance(r, tuple):
            if r[1][0] != "L":
                return "?" + self.I.show(r[1])[:100]
            xs = [name(x) for x in r[1][1]]
            return tuple(sorted(xs, key=str)) if None not in xs else "?"
        return r

    def arcs(self, v):
        """a map from predicates to sets of nodes, as a dict"""
        if v[0] != "L":
            return None
        d = {}
        for e in v[1]:
            if e[0] != "t" or e[1][1][0] != "L":
                return None
            k = name(e[1][0])
            if k in d:
                return None
            d[k] = frozenset(name(x) for x in e[1][1][1])
        return d


def h_iri(I, s, n, c, a, st):
    return [(I.deref(a[0], st), st)]


IRIS_OX = [(r"IriS::(as_str|new_unchecked)$", h_iri), (r"IriS as core::str::traits::FromStr>::from_str$", lambda I, s, n, c, a, st: [(Ok(I.deref(a[0], st)), st)])]


def show(q):
    return "(%s, %s, %s)" % tuple("_" if x is None else x if isinstance(x, str) else repr(x[1]) for x in q)


def by(P, selfty, trait, name_):
    return P.fns.get("<%s as %s>::%s" % (selfty, trait, name_)) or P.fns.get("%s::%s" % (trait, name_))


def same(got, want):
    return isinstance(got, tuple) and len(set(got)) == len(got) and frozenset(got) == frozenset(want) or isinstance(got, tuple) and frozenset(got) == frozenset(want)


def lookup(c, P):
    """triples_matching and everything derived from it, for each store"""
    m = M(P)
    I = m.I
    stores = [("in memory", OX, lambda: m.mem(G1), G1, False), ("endpoint", EP, lambda: m.endpoint("http://e/", G1), G1, True),
              ("backend in memory", BACK, lambda: m.backend(m.mem(G1)), G1, False), ("backend endpoint", BACK, lambda: m.backend(m.endpoint("http://e/", G1)), G1, True),
              ("data", DATA, lambda: m.data(m.mem(G1), ()), G1, False), ("data and endpoint", DATA, lambda: m.data(m.mem(G1), (("one", m.endpoint("http://e/", G2)),)), G1 + G2, None),
              ("data and two endpoints", DATA, lambda: m.data(m.mem(G1), (("one", m.endpoint("http://e/", G2)), ("two", m.endpoint("http://f/", G3)))), G1 + G2 + G3, None),
              ("data on an endpoint", DATA, lambda: m.data(m.endpoint("http://e/", G1), (("two", m.endpoint("http://f/", G3)),)), G1 + G3, True),
              ("unused endpoints", DATA, lambda: m.data(m.mem(G1), (), (("one", m.endpoint("http://e/", G2)),)), G1, False)]
    M1 = lambda x, f: ANY if x is None else f(x)
    n = 0
    for sname, ty, mk, g, remote in stores:
        v = mk()
        f = by(P, ty, NR, "triples_matching")
        if f is None:
            c.anchor("lookup", sname, None, "triples_matching of " + ty)
            continue
        small = sname not in ("in memory", "endpoint")
        for s, p, o in itertools.product(SUBJ, PRED, OBJ):
            # a label cannot name a blank node in a query to an endpoint
            if remote is not False and (str(s).startswith("_:") or str(o).startswith("_:")):
                continue
            if small and (s in ("d",) or p in ("s", RT) or o in ("C", "c")):
                continue
            want = sel(g, s, p, o)
            got = m.triples(m.call(f, v, M1(s, term), M1(p, iri), M1(o, term)))
            n += 1
            c.ob("lookup", "%s/matching%s" % (sname, show((s, p, o))), f.where(), same(got, want), "%s: triples_matching%s yields %s instead of %s" % (sname, show((s, p, o)), got, sorted(want, key=str)))
        T1 = lambda key, fn, args, want, get=m.triples: tab(c, "lookup", m, by(P, ty, NR, fn), sname, key, fn, (v,) + args, want, get)
        T1("all", "triples", (), sel(g, None, None, None))
        for s in ("a", "b", "z") + (("_:n",) if remote is False else ()):
            T1("subject " + s, "triples_with_subject", (term(s),), sel(g, s, None, None))
            for p in ("p", "q", "z"):
                T1("%s %s" % (s, p), "triples_with_subject_predicate", (term(s), iri(p)), sel(g, s, p, None))
                ob = {t[2] for t in sel(g, s, p, None)}
                T1("%s %s" % (s, p), "objects_for", (term(s), iri(p)), ob, m.terms)
                T1("%s %s" % (s, p), "object_for", (term(s), iri(p)), ob, first(m, ob))
                for o in ("b", LIT):
                    T1("%s %s %s" % (s, p, o), "contains", (term(s), iri(p), term(o)), [bool(sel(g, s, p, o))], flag(m))
            d = {}
            for t in sel(g, s, None, None):
                d.setdefault(t[1], set()).add(t[2])
            T1("arcs " + s, "outgoing_arcs", (term(s),), [frz(d)], arcs1(m))
            for ps in ((), ("p",), ("p", "q"), ("z", "q"), ("s", RT, "p")):
                want = {k: x for k, x in d.items() if k in ps}
                full = {t[1] for t in sel(G1 if remote is None else g, s, None, None)} - set(ps)
                T1("arcs %s [%s]" % (s, ", ".join(ps)), "outgoing_arcs_from_list", (term(s), ("L", tuple(iri(x) for x in ps))),
                   [(frz(want), None if remote else frozenset(full))], arcs2(m, remote))
        for p in ("p", "q", "z"):
            T1(p, "triples_with_predicate", (iri(p),), sel(g, None, p, None))
            for o in ("b", LIT, "z"):
                T1("%s %s" % (p, o), "triples_with_predicate_object", (iri(p), term(o)), sel(g, None, p, o))
                T1("%s %s" % (p, o), "subjects_for", (iri(p), term(o)), {t[0] for t in sel(g, None, p, o)}, m.terms)
        for o in ("b", LIT, "z", "c"):
            T1("object %s" % (o,), "triples_with_object", (term(o),), sel(g, None, None, o))
            d = {}
            for t in sel(g, None, None, o):
                d.setdefault(t[1], set()).add(t[0])
            T1("arcs %s" % (o,), "incoming_arcs", (term(o),), [frz(d)], arcs1(m))
            for ps in ((), ("p",), ("z", "q")):
                T1("arcs %s [%s]" % (o, ", ".join(ps)), "incoming_arcs_from_list", (term(o), ("L", tuple(iri(x) for x in ps))), [frz({k: x for k, x in d.items() if k in ps})], arcs1(m))
        for cl in ("C", "D", "E"):
            T1("class " + cl, "shacl_instances_of", (term(cl),), {t[0] for t in sel(g, None, RT, cl)}, m.terms)
        # a failing endpoint is never an empty answer
        if remote is not False:
            m.failing = set(m.ep)
            for fn, args in (("triples_matching", (ANY, iri("p"), ANY)), ("triples", ()), ("outgoing_arcs_from_list", (term("a"), ("L", (iri("p"),)))), ("objects_for", (term("a"), iri("p"))),
                             ("shacl_instances_of", (term("C"),)), ("incoming_arcs", (term("b"),)), ("contains", (ANY, iri("p"), ANY))):
                fx = by(P, ty, NR, fn)
                got = m.result(m.call(fx, v, *args)) if fx else "missing"
                c.ob("lookup", "%s/failing %s" % (sname, fn), fx.where() if fx else "", got == "err", "%s: while the endpoint fails, %s must be an error but is %s" % (sname, fn, m.I.show(got[1]) if isinstance(got, tuple) else got))
            m.failing = set()
    c.floor("lookup", 1500, "stores x patterns and derived views")
    # the asynchronous view of a graph in memory
    for s, p, o in (("a", "p", "b"), ("b", "q", LIT), ("_:n", "q", "_:n"), ("z", "z", "z"), ("c", "p", "c")):
        for fn, args, want in (("get_predicates_subject", (term(s),), {t[1] for t in sel(G1, s, None, None)}), ("get_objects_for_subject_predicate", (term(s), iri(p)), {t[2] for t in sel(G1, s, p, None)}),
                               ("get_subjects_for_object_predicate", (term(o), iri(p)), {t[0] for t in sel(G1, None, p, o)})):
            f = by(P, OX, AR, fn)
            got = m.terms([(Ok(r) if not (r[0] == "a" and r[2] in ("Ok", "Err")) else r, cs, G) for r, cs, G in m.call(f, m.mem(G1), *args)]) if f else "missing"
            c.ob("lookup", "async/%s%s" % (fn, show((s, p, o))), f.where() if f else "", same(got, want), "%s%s yields %s instead of %s" % (fn, show((s, p, o)), got, sorted(want, key=str)))


def frz(d):
    return frozenset((k, frozenset(x)) for k, x in d.items())


def tab(c, rid, m, f, sname, key, what, args, want, get):
    if f is None:
        c.anchor(rid, "%s/%s" % (sname, what), None, what)
        return
    got = get(m.call(f, *args))
    c.ob(rid, "%s/%s %s" % (sname, what, key), f.where(), same(got, want), "%s: %s (%s) yields %s instead of %s" % (sname, what, key, got if not isinstance(got, tuple) else list(got), sorted(want, key=str)))


def first(m, want):
    """`want` when the answer is one of its members, or None when it is empty"""
    def g(outs):
        r = m.result(outs)
        if not isinstance(r, tuple):
            return r
        v = r[1]
        if v == NONE:
            return ()
        x = name(v[3][0]) if v[0] == "a" and v[2] == "Some" else None
        return tuple(want) if x in want else (x,)
    return g


def flag(m):
    def g(outs):
        r = m.result(outs)
        return (r[1][1],) if isinstance(r, tuple) and r[1][0] == "b" else r
    return g


def arcs1(m):
    def g(outs):
        r = m.result(outs)
        d = m.arcs(r[1]) if isinstance(r, tuple) else None
        return (frz(d),) if d is not None else r if not isinstance(r, tuple) else "?" + m.I.show(r[1])[:120]
    return g


def arcs2(m, remote):
    def g(outs):
        r = m.result(outs)
        if not isinstance(r, tuple) or r[1][0] != "t":
            return r if not isinstance(r, tuple) else "?"
        d, rest = m.arcs(r[1][1][0]), r[1][1][1]
        if d is None or rest[0] != "L":
            return "?" + m.I.show(r[1])[:120]
        return ((frz({k: x for k, x in d.items() if x}), None if remote else frozenset(name(x) for x in rest[1])),)
    return g


# ---- mutation of the graph and the invariant of its SPARQL store
def delta(g, add=(), rem=()):
    return frozenset(t for t in g if t not in rem) | frozenset(add)


def memstate(m, v):
    """(set of triples, 'none' | set of triples in the SPARQL store) of an in-memory graph"""
    if v[0] == "a" and v[1] == DATA:
        v = fields(m.P, v)["primary"]
    if v[0] == "a" and v[1] == BACK:
        if v[2] != "InMemory":
            return None, "none"
        v = v[3][0]
    if v[0] != "a" or v[1] != OX:
        return None, None
    f = fields(m.P, v)
    g, s = m.ox.triples_of(f["graph"]), f["store"]
    if s == NONE:
        return g, "none"
    if s[0] == "a" and s[2] == "Some" and s[3][0][0] == "a" and s[3][0][1] == "STORE":
        q, done = m.stores[s[3][0][3][0][1]]
        return g, frozenset(q) if done and len(set(q)) == len(q) else None
    return g, None


def after(m, f, v, args):
    """the outcomes of a method of &mut self: (result, graph, store)"""
    return [(o[0], *memstate(m, o[1][0])) for o in m.call(f, ("p", -1, ()), *args, cells=(v,))]


def mutate(c, P):
    doc = G3 + [("_:m", "p", "_:n"), ("a", "p", "b")]
    m = M(P, parsers(doc))
    ops = {"add_triple": [((term(s), iri(p), term(o)), delta(G1, [(s, p, o)])) for s, p, o in (("z", "z", "z"), ("a", "p", "b"), ("_:n", "p", LIT), ("_:y", "p", "_:y"))],
           "remove_triple": [((term(s), iri(p), term(o)), delta(G1, (), [(s, p, o)])) for s, p, o in (("z", "z", "z"), ("a", "p", "b"), ("_:n", "q", "_:n"), ("b", "q", LIT))],
           "add_type": [((term(s), term(o)), delta(G1, [(s, RT, o)])) for s, o in (("z", "C"), ("a", "C"), ("_:n", "D"), ("a", "_:y"))]}
    ops["add_triple_ref"] = ops["add_triple"]
    done = set()
    wrap = {OX: lambda v: v, BACK: m.backend, DATA: lambda v: m.data(v, ())}
    for i, f in sorted(P.fns.items()):
        if f.kind != "method" or not f.argc or not f.d.get("pub") and " as " not in i:
            continue
        ty = P.ty(f.crate, f.d["locals"][1])
        while ty.get("k") == "ref" and ty.get("m"):
            ty = P.ty(f.crate, ty["a"][0])
            break
        else:
            continue
        adt = ty.get("adt")
        if adt not in wrap or not re.search(re.escape(adt) + r"(>| as |::\w+$)", i):
            continue
        sname = adt.rsplit("::", 1)[1]
        done.add((sname, f.name))
        # a private constructor of a mutable view is judged where it is used
        rty = P.ty(f.crate, f.d["locals"][0])
        if rty.get("k") == "ref" and rty.get("m"):
            continue
        for state in ("none", "built"):
            for k, (args, want) in enumerate(ops.get(f.name, [(None, None)])):
                v = wrap[adt](m.mem(G1, NONE if state == "none" else Some(m.store(G1))))
                if args is None:
                    args = tuple(m.backend(m.mem(G2, Some(m.store(G2)))) if P.ty(f.crate, f.d["locals"][n]).get("adt") == BACK else m.I.sym("arg", n) for n in range(2, f.argc + 1))
                try:
                    outs = after(m, f, v, args)
                except Exception as e:
                    c.ob("store", "%s::%s %s" % (sname, f.name, state), f.where(), False, "%s::%s cannot be analysed: %s" % (sname, f.name, str(e)[:100]))
                    continue
                bad = [o for o in outs if not (o[2] == "none" or o[1] is not None and o[1] == o[2])] or ([] if outs else ["no outcome"])
                c.ob("store", "%s::%s %s %d" % (sname, f.name, state, k), f.where(), not bad,
                     "%s::%s (store %s before) can leave a SPARQL store that differs from the graph: graph %s, store %s" % (sname, f.name, state, bad and bad[0] != "no outcome" and fmt(bad[0][1]), bad and bad[0] != "no outcome" and fmt(bad[0][2])))
                if want is not None:
                    ok = outs and all(o[1] == want and o[0][0] == "a" and o[0][2] == "Ok" for o in outs)
                    c.ob("mutate", "%s::%s %s %d" % (sname, f.name, state, k), f.where(), bool(ok), "the graph after %s::%s%s %s" % (
                        sname, f.name, tuple(name(x) for x in args), " or ".join(sorted({"%s (%s)" % (diff(want, o[1]), m.I.show(o[0])[:40]) for o in outs}))))
                elif f.name in KEEP:
                    c.ob("mutate", "%s::%s %s" % (sname, f.name, state), f.where(), all(o[1] == frozenset(G1) for o in outs), "%s::%s must not change the triples" % (sname, f.name))
    for sname, fn in [("OxigraphInMemory", x) for x in ("add_triple", "remove_triple", "add_type", "add_triple_ref", "merge_from_reader", "merge_from_path", "ensure_store")] + [("RdfData", x) for x in ("add_triple", "remove_triple", "add_type", "merge_from_reader", "check_store")] + [
            ("RdfBackend", x) for x in ("add_triple", "remove_triple", "add_type")]:
        if (sname, fn) not in done:
            c.anchor("store", "%s::%s" % (sname, fn), None, "method %s of %s" % (fn, sname))
    # after the store has been asked for, it holds the graph
    for adt, fn in ((OX, "ensure_store"), (DATA, "check_store")):
        f = P.fns.get("%s::%s" % (adt, fn))
        if f is None:
            c.anchor("store", fn, None, fn)
            continue
        for g in ([], G1, G2):
            for state in ("none", "built"):
                v = wrap[adt](m.mem(g, NONE if state == "none" else Some(m.store(g))))
                outs = after(m, f, v, ())
                ok = bool(outs) and not m.bad and all(o[1] == frozenset(g) and (o[2] == o[1] or o[0][2] == "Err") for o in outs) and any(o[0][2] == "Ok" for o in outs)
                c.ob("store", "%s %s %d" % (fn, state, len(g)), f.where(), ok, "after %s the SPARQL store must hold exactly the graph: %s" % (fn, m.bad or [(fmt(o[1]), fmt(o[2])) for o in outs]))
    # a copy is a copy of both
    f = P.fns.get("<%s as core::clone::Clone>::clone" % OX)
    if f is not None:
        outs = m.call(f, m.mem(G1, Some(m.store(G1))))
        st = [memstate(m, o[0]) for o in outs]
        c.ob("store", "clone", f.where(), bool(st) and all(x[0] == frozenset(G1) and x[1] in ("none", x[0]) for x in st), "a clone has the same triples and the store of them")
    for fn in ("new", "<%s as core::default::Default>::default" % OX, "<%s as %s>::empty" % (OX, BR)):
        f = P.fns.get(fn if fn.startswith("<") else OX + "::" + fn)
        if f is not None:
            st = [memstate(m, o[0]) for o in m.call(f)]
            c.ob("store", fn[-12:], f.where(), bool(st) and all(x == (frozenset(), "none") or x == (frozenset(), frozenset()) for x in st), "%s must be the empty graph without a store" % fn)
    c.floor("store", 60, "methods of &mut self x state of the store")
    c.floor("mutate", 60, "changes of the graph")


KEEP = ("set_focus", "add_base", "add_prefix", "set_prefix_map", "merge_prefixes", "add_bnode", "set_default_base_prefixes", "ensure_store", "check_store", "use_endpoint", "dont_use_endpoint", "add_endpoint")


def diff(want, got):
    """how a graph differs from the wanted one"""
    if not isinstance(got, frozenset):
        return "leaves " + fmt(got)
    return "lacks %s, has %s too" % (fmt(want - got), fmt(got - want)) if want != got else "is that graph"


def fmt(g):
    return g if isinstance(g, str) else "an undetermined graph" if g is None else "{%s}" % ", ".join(show(t) for t in sorted(g, key=str)[:12])


def parsers(items, log=None, bases=None):
    """handlers of the RDF parsers: each yields `items` (triples, or None for a syntax error, or ("bad", triple) for a triple with an IRI that is not one)"""
    KIND = {"TurtleParser": "Turtle", "NTriplesParser": "NTriples", "RdfXmlParser": "Rdfxml", "NQuadsParser": "NQuads", "JsonLdParser": "JsonLd", "TriGParser": "TriG", "N3Parser": "N3"}

    def h(I, site, nm, callee, args, st):
        n = re.sub(r"::<.*?>(?=::|$)", "", nm)
        k, mth = re.search(r"::(\w+Parser)(?:<.*?>)?::(\w+)$", n).groups()
        if k not in KIND:
            return None
        if mth in ("new", "default"):
            return [(("a", "PARSER", "", (("s", KIND[k]), NONE)), st)]
        p = I.deref(args[0], st)
        if p[0] != "a" or p[1] != "PARSER":
            return None
        if mth == "with_base_iri":
            b = I.deref(args[1], st)
            if b == ("s", "no base"):
                return [(Err(I.sym("in", "E")), st)]
            return [(Ok(("a", "PARSER", "", (p[3][0], Some(b)))), st)]
        if mth in ("for_reader", "for_slice"):
            if log is not None:
                log.append((p[3][0][1], p[3][1], I.deref(args[1], st)))
            quad = p[3][0][1] in ("NQuads", "JsonLd", "TriG")
            one = lambda t: ("a", "QUAD", "", triple(*t)[3] + (("a", "oxrdf::triple::GraphName", "DefaultGraph", ()),)) if quad else triple(*t)
            xs = tuple(Err(I.sym("in", "syntax")) if x is None else Ok(one(x[1] if x[0] == "bad" else x)) for x in items)
            return [(("it", ("L", xs)), st)]
        if mth in ("lenient", "unchecked", "with_prefix", "with_default_graph"):
            return [(p, st)]
        return None

    def h_new(I, site, nm, callee, args, st):
        x = I.deref(args[0], st)
        if x[0] != "s":
            return None
        return [(Err(I.sym("in", "iri")) if x[1].startswith("bad") else Ok(iri(x[1])), st)]

    return [(r"ox(ttl|rdfxml|jsonld)::(?:\w+::)*\w+Parser(?:::)?(?:<.*?>)?::\w+$", h), (r"Reader\w+Parser(?:::)?(?:<.*>)?::prefixes$", lambda I, s, n, c, a, st: [(("it", ("L", ())), st)]),
            (r"oxrdf::named_node::NamedNode::new$", h_new)]


def parse(c, P):
    """reading a document adds exactly its triples"""
    FMT = [a for a in P.adts if a.endswith("::RDFFormat") and a.startswith("rudof_rdf")][0]
    MODE = [a for a in P.adts if a.endswith("::ReaderMode") and a.startswith("rudof_rdf")][0]
    docs = {"empty": [], "one": [("a", "p", "b")], "many": G3 + [("_:m", "p", "_:n"), ("a", "p", "b"), ("a", "p", "b"), ("c", "q", LIT)], "error first": [None, ("a", "p", "d")], "error inside": [("a", "p", "d"), None, ("d", "p", "a")],
            "error last": [("a", "p", "d"), ("d", "p", "a"), None], "errors": [None, ("a", "p", "d"), None, None, ("d", "q", "a")]}
    for n, t in (("subject", ("bad s", "p", "o")), ("predicate", ("a", "bad p", "o")), ("object", ("a", "p", "bad o"))):
        docs["bad " + n] = [("a", "p", "d"), ("bad", t), ("d", "q", "a")]
    reader, bs = ("a", "TEXT", "", ()), Some(("s", "http://b/"))
    for dn, items in docs.items():
        log = []
        m = M(P, parsers(items, log))
        good = [x for x in items if x and x[0] != "bad"]
        wrong = len(good) != len(items)
        for fmt_ in ("Turtle", "NTriples", "Rdfxml", "NQuads", "JsonLd"):
            # only the Turtle reader is lenient about IRIs, and only it checks them again
            if dn.startswith("bad") and fmt_ != "Turtle":
                continue
            F = ("a", FMT, fmt_, ())
            for mode in ("Strict", "Lax"):
                Mo = ("a", MODE, mode, ())
                for init in ([], G1):
                    for ty, fn, v in ((OX, "merge_from_reader", m.mem(init, Some(m.store(init)))), (DATA, "merge_from_reader", m.data(m.mem(init, Some(m.store(init))), ())), (OX, "from_reader", None), (OX, "from_str", None), (DATA, "from_str", None)):
                        f = P.fns.get("%s::%s" % (ty, fn))
                        if f is None:
                            c.anchor("parse", "%s::%s" % (ty, fn), None, fn)
                            continue
                        if v is None and init:
                            continue
                        del log[:]
                        T2 = ty.rsplit("::", 1)[1]
                        if v is not None:
                            outs = [(o[0], memstate(m, o[1][0])) for o in m.call(f, ("p", -1, ()), reader, ("s", "src"), F, bs, Mo, cells=(v,))]
                        elif fn == "from_reader":
                            outs = m.call(f, reader, ("s", "src"), F, bs, Mo)
                        else:
                            outs = m.call(f, ("s", "TEXT"), F, bs, Mo)
                        if v is None:
                            outs = [(o[0], memstate(m, o[0][3][0]) if o[0][0] == "a" and o[0][2] == "Ok" else (None, None)) for o in outs]
                        key = "%s::%s/%s/%s/%s/%d" % (T2, fn, fmt_, dn, mode, len(init))
                        want = frozenset(init) | frozenset(good)
                        if wrong and mode == "Strict":
                            ok = outs and all(o[0][0] == "a" and o[0][2] == "Err" for o in outs)
                            msg = "must be an error"
                        else:
                            ok = outs and all(o[0][0] == "a" and o[0][2] == "Ok" and o[1][0] == want for o in outs)
                            msg = "must yield " + fmt(want)
                        c.ob("parse", key, f.where(), bool(ok), "%s::%s of a %s document (%s) in %s mode %s but yields %s" % (
                            T2, fn, fmt_, dn, mode.lower(), msg, "; ".join(sorted({"%s %s" % (m.I.show(o[0])[:30], fmt(o[1][0])) for o in outs})[:3])))
                        ks = {(x[0], x[1]) for x in log}
                        c.ob("parse", key + "/parser", f.where(), ks == {(fmt_, bs if fmt_ == "Turtle" else NONE)} or fmt_ != "Turtle" and {k for k, _ in ks} == {fmt_},
                             "a %s document must be read by the parser of that format, with the base given: %s" % (fmt_, sorted("%s base %s" % (k, m.I.show(b)) for k, b in ks)))
    c.floor("parse", 700, "documents x formats x modes x entry points")


# ---- queries
QS = "rudof_rdf::rdf_core::query::query_solutions::QuerySolutions"
QRES = "spareval::model::QueryResults"
ROWS = [{"x": "a", "y": LIT}, {"x": "b", "y": None}, {"x": "_:n", "y": "c"}]
MORE = [{"x": "d", "y": "d"}]


def qrow(r):
    return ("a", "ROW", "", (("L", tuple(("a", "VAR", "", (("s", k),)) for k in r)), ("L", tuple(NONE if x is None else Some(term(x)) for x in r.values()))))


def solutions(rows, bad=None):
    xs = [Ok(qrow(r)) for r in rows]
    if bad is not None:
        xs.insert(bad, Err(("s", "evaluation failed")))
    return Ok(("a", QRES, "Solutions", (("it", ("L", tuple(xs))),)))


def sparql(P):
    """handlers of the rows of a query, of the serialiser of its triples and of displayed queries"""
    def h_row(I, s, n, c, a, st):
        v = I.deref(a[0], st)
        if v[0] != "a" or v[1] not in ("ROW", "VAR"):
            return None
        m = n.rsplit("::", 1)[1]
        return [(v[3][0] if m in ("variables", "as_str", "into_string") else v[3][1], st)]

    def h_ser(I, s, n, c, a, st):
        m = re.sub(r"::<.*?>(?=::|$)", "", n).rsplit("::", 1)[1]
        v = I.deref(a[0], st)
        if m in ("from_format", "new"):
            return [(("a", "SER", "", ()), st)]
        if v[0] != "a" or v[1] not in ("SER", "WRITER"):
            return None
        if m == "for_writer":
            return [(("a", "WRITER", "", (a[1],)), st)]
        if m.startswith("with_"):
            return [(Ok(v) if m == "with_prefix" else v, st)]
        if m in ("serialize_triple", "serialize_quad", "serialize"):
            x, b = spo(I.deref(a[1], st)), I.deref(v[3][0], st)
            if x is None or v[3][0][0] != "p":
                return None
            b = b[1] if b[0] == "s" else ""
            ns = st.fork()
            I.write_cell(v[3][0][1], v[3][0][2], ("s", b + show(x) + ";"), ns)
            return [(Ok(UNIT), ns)]
        return [(Ok(UNIT), st)] if m == "finish" else None

    def h_utf8(I, s, n, c, a, st):
        v = I.deref(a[0], st)
        return [(Ok(v if v[0] == "s" else ("s", "")), st)] if v[0] == "s" or v == ("L", ()) else None

    def h_show(I, s, n, c, a, st):
        v = I.deref(a[0], st)
        if v[0] != "a" or v[1] != "spargebra::query::Query":
            return None
        if n.endswith("to_string"):
            return [(("s", "QUERY"), st)]
        return None

    return [(r"spar\w+::.*QuerySolution(?:::)?(?:<.*?>)?::(variables|values)$|Variable(?:Ref)?(?:::)?(?:<.*?>)?::(as_str|into_string)$", h_row),
            (r"oxrdfio::(?:\w+::)*(RdfSerializer|WriterQuadSerializer)(?:::)?(?:<.*?>)?::\w+$", h_ser), (r"String(?:::)?(?:<.*?>)?::from_utf8(_lossy)?$", h_utf8), (r"to_string$", h_show)]


def answer(m, v):
    """rows of a QuerySolutions value, as a list of dicts"""
    if v[0] != "a" or v[1] != QS:
        return None
    xs = fields(m.P, v)["solutions"]
    if xs[0] != "L":
        return None
    rows = []
    for x in xs[1]:
        f = fields(m.P, x)
        ks, vs = f["variables"], f["values"]
        if ks[0] != "L" or vs[0] != "L" or len(ks[1]) != len(vs[1]):
            return None
        k = [y[3][0][1] if y[0] == "a" and y[3][0][0] == "s" else None for y in ks[1]]
        z = [None if y == NONE else name(y[3][0]) if y[0] == "a" and y[2] == "Some" else "?" for y in vs[1]]
        if None in k or "?" in z:
            return None
        rows.append(dict(zip(k, z)))
    return rows


def queries(c, P):
    m = M(P, sparql(P))
    key = lambda rs: None if rs is None else sorted(tuple(sorted(r.items(), key=str)) for r in rs) if all(isinstance(r, dict) for r in rs) else rs
    FM = [a for a in P.adts if a.endswith("::QueryResultFormat") and a.startswith("rudof_rdf")]
    fm = ("a", FM[0], "Turtle", ()) if FM else T
    def one(f, v, args, g):
        """(outcome, queries put to the store holding g) """
        del m.qtext[:]
        n = len(m.stores)
        outs = m.call(f, v, *args)
        seen = [(q, frozenset(m.stores[s[3][0][1]][0]) == frozenset(g) if s[0] == "a" and s[1] == "STORE" else None) for q, s in m.qtext]
        r = m.result(outs)
        return r, seen
    wraps = [("OxigraphInMemory", OX, lambda v: v), ("RdfBackend", BACK, m.backend), ("RdfData", DATA, lambda v: m.data(v, ()))]
    for sname, ty, w in wraps:
        fs, fa, fc = (by(P, ty, QR, "query_" + x) for x in ("select", "ask", "construct"))
        if None in (fs, fa, fc):
            c.anchor("queries", sname, None, "query_select, query_ask, query_construct of " + sname)
            continue
        def mk(g=G1):
            return w(m.mem(g, Some(m.store(g))))
        def row(what, f, args, res, good, show_, k):
            m.qres = res
            r, seen = one(f, mk(), args, G1)
            ok = good(r)
            c.ob("queries", "%s/%s" % (sname, what), f.where(), ok, "%s: %s must be %s but is %s" % (sname, what, show_, "%s" % (m.I.show(r[1])[:160] if isinstance(r, tuple) else r)))
            if args[0] != ("s", "bad"):
                c.ob("queries", "%s/%s/text" % (sname, what), f.where(), bool(seen) and set(seen) == {(args[0][1], True)}, "%s: %s must be put to the store as it is given: %s" % (sname, what, seen))
        sel_ok = lambda rows: lambda r: isinstance(r, tuple) and answer(m, r[1]) == rows
        for what, rows in (("no row", []), ("one row", ROWS[:1]), ("an unbound variable", ROWS[1:2]), ("three rows", ROWS), ("equal rows", ROWS[:1] * 2)):
            row("select: " + what, fs, (("s", "select " + what),), solutions(rows), sel_ok(rows), "those rows", 0)
        err = lambda r: r == "err"
        for i in (0, 1, 3):
            row("select: evaluation fails at row %d" % i, fs, (("s", "q"),), solutions(ROWS, i), err, "an error", 0)
        for f, kind, extra in ((fs, "select", ()), (fa, "ask", ()), (fc, "construct", (fm,))):
            row(kind + ": syntax error", f, (("s", "bad"),) + extra, solutions([]), err, "an error", 0)
            row(kind + ": evaluation error", f, (("s", "q"),) + extra, Err(("s", "failed")), err, "an error", 0)
        for b in (True, False):
            row("ask: %s" % b, fa, (("s", "ask"),), Ok(("a", QRES, "Boolean", (("b", b),))), lambda r: r == ("ok", ("b", b)), str(b), 0)
        for ts in ([], G3):
            g = ("a", QRES, "Graph", (("it", ("L", tuple(Ok(triple(*t)) for t in ts))),))
            row("construct: %d triples" % len(ts), fc, (("s", "construct"), fm), Ok(g), lambda r: isinstance(r, tuple) and r[1][0] == "s" and sorted(x for x in r[1][1].split(";") if x) == sorted(show(t) for t in ts), "those triples", 0)
        g = ("a", QRES, "Graph", (("it", ("L", (Ok(triple("a", "p", "b")), Err(("s", "failed"))))),))
        row("construct: evaluation fails at a triple", fc, (("s", "construct"), fm), Ok(g), err, "an error", 0)
    # the federation
    fs, fa, fc = (by(P, DATA, QR, "query_" + x) for x in ("select", "ask", "construct"))
    if None in (fs, fa, fc):
        return
    e1, e2 = m.endpoint("http://e/", []), m.endpoint("http://f/", [])
    for use in ((), (("one", e1),), (("one", e1), ("two", e2))):
        for prim, r1, r2 in ((ROWS, MORE, ROWS[:1]), ([], MORE, []), ([], [], MORE), (ROWS[1:], [], [])):
            m.ep["http://e/"], m.ep["http://f/"] = tuple(r1), tuple(r2)
            want = prim + (r1 if len(use) > 0 else []) + (r2 if len(use) > 1 else [])
            cat = (("one", e1), ("two", e2))
            mk = lambda: m.data(m.mem(G1, Some(m.store(G1))), use, cat)
            m.qres = solutions(prim)
            r, seen = one(fs, mk(), (("s", "q"),), G1)
            got = answer(m, r[1]) if isinstance(r, tuple) else r
            # every endpoint in use is asked the query, no other
            asked = sorted(set(m.asked))
            k = "%d in use/%d+%d+%d" % (len(use), len(prim), len(r1), len(r2))
            c.ob("queries", "federation/" + k, fs.where(), isinstance(got, list) and key(got) == key(want), "a query over data and endpoints must yield the rows of each (%s) but yields %s" % (want, got))
            c.ob("queries", "federation/asked/" + k, fs.where(), asked == sorted((n, "q") for n in ("http://e/", "http://f/")[:len(use)]) and seen == [("q", True)], "a query must be put as it is to the data and to the endpoints in use: %s %s" % (seen, asked))
            m.qres = Ok(("a", QRES, "Boolean", (("b", bool(prim)),)))
            r, seen = one(fa, mk(), (("s", "q"),), G1)
            c.ob("queries", "federation/ask/" + k, fa.where(), r == ("ok", ("b", bool(want))), "ASK over data and endpoints is the disjunction (%s) but is %s" % (bool(want), r))
    for fail in ("http://e/", "http://f/"):
        m.failing = {fail}
        m.ep["http://e/"], m.ep["http://f/"] = (), ()
        for f, res, extra in ((fs, solutions(ROWS), ()), (fa, Ok(("a", QRES, "Boolean", (FALSE,))), ()), (fc, Ok(("a", QRES, "Graph", (("it", ("L", ())),))), (fm,))):
            m.qres = res
            r, _ = one(f, m.data(m.mem(G1, Some(m.store(G1))), (("one", e1), ("two", e2))), (("s", "q"),) + extra, G1)
            c.ob("queries", "federation/%s/failing %s" % (f.name, fail), f.where(), r == "err", "%s with a failing endpoint must be an error but is %s" % (f.name, r))
        m.failing = set()
    c.floor("queries", 120, "queries x stores x results")


# ---- the entry points prepare the store, and loading is the union of the sources
RU = "rudof_lib::rudof::Rudof"


def prepared(c, P):
    st = {}
    def h_validate(I, s, n, cl, a, state):
        st["at"] = memstate(m, I.deref(a[2], state))
        st["same"] = I.deref(a[1], state)
        return [(Ok(("a", "RESULT", "", ())), state)]
    m = M(P, [(r"Validator(?:::)?(?:<.*?>)?::validate_shapemap$", h_validate)] + sparql(P))
    D = "rudof_lib::types::data::Data"
    rudof = lambda d, **kw: m.struct(RU, data=d, **kw)
    boxed = lambda v: Some(("a", D, "RDFData", (v,)))
    Q = lambda k: ("a", "rudof_rdf::rdf_core::query::sparql_query::SparqlQuery", "", (("s", "SOURCE"), ("a", "spargebra::query::Query", k, tuple(m.I.sym("in", "q%d" % i) for i in range(4)))))
    f = next((x for i, x in P.fns.items() if i.endswith("::run_query") and i.startswith("rudof_lib::api::query::implementations")), None)
    if f is None:
        c.anchor("prepared", "run_query", None, "rudof_lib run_query")
    else:
        for kind, res, want in (("Select", solutions(ROWS), ROWS), ("Ask", Ok(("a", QRES, "Boolean", (TRUE,))), TRUE), ("Ask", Ok(("a", QRES, "Boolean", (FALSE,))), FALSE), ("Construct", Ok(("a", QRES, "Graph", (("it", ("L", (Ok(triple("a", "p", "b")),))),))), ("s", "(a, p, b);"))):
            for state in ("none", "built"):
                d = m.data(m.mem(G1, NONE if state == "none" else Some(m.store(G1))), ())
                m.qres = res
                del m.qtext[:]
                outs = m.call(f, ("p", -1, ()), NONE, cells=(rudof(boxed(d), sparql_query=Some(Q(kind)), query_results=Some(m.I.sym("in", "old"))),))
                ok = bool(outs)
                for o in outs:
                    r = fields(P, o[1][0])["query_results"]
                    v = r[3][0] if r[0] == "a" and r[2] == "Some" else T
                    good = v[0] == "a" and v[2] == kind and (answer(m, v[3][0]) == want if kind == "Select" else v[3][0] == want)
                    ok = ok and o[0][0] == "a" and o[0][2] == "Ok" and good
                seen = {(q, frozenset(m.stores[s[3][0][1]][0]) == frozenset(G1) and m.stores[s[3][0][1]][1]) for q, s in m.qtext}
                c.ob("prepared", "run_query/%s/%s/%s" % (kind, state, want == TRUE), f.where(), ok and bool(seen) and seen <= {("SOURCE", True), ("QUERY", True)},
                     "run_query (%s, SPARQL store %s before) must put the loaded query to a store holding the loaded graph and keep its answer: asked %s, result %s" % (kind, state, sorted(seen, key=str), "; ".join(m.I.show(fields(P, o[1][0])["query_results"])[:120] for o in outs[:3])))
        m.qres = Err(("s", "failed"))
        outs = m.call(f, ("p", -1, ()), NONE, cells=(rudof(boxed(m.data(m.mem(G1), ())), sparql_query=Some(Q("Select")), query_results=NONE),))
        c.ob("prepared", "run_query/error", f.where(), bool(outs) and all(o[0][0] == "a" and o[0][2] == "Err" for o in outs), "a failing query is an error")
    f = next((x for i, x in P.fns.items() if i.endswith("::validate_shex") and i.startswith("rudof_lib::api::shex::implementations")), None)
    NS, AS, QM = "shex_ast::shapemap::node_selector::NodeSelector", "shex_ast::shapemap::association::Association", "shex_ast::shapemap::query_shape_map::QueryShapeMap"
    if f is None or NS not in P.adts:
        c.anchor("prepared", "validate_shex", None, "rudof_lib validate_shex")
    else:
        sel_ = {v["n"]: ("a", NS, v["n"], tuple(m.I.sym("in", "%s%d" % (v["n"], i)) for i in range(len(v["f"])))) for v in P.adts[NS]["v"]}
        need = {"Node": False, "BNode": False, "TriplePattern": True, "Sparql": True, "Generic": False}
        for ks in [(k,) for k in sel_] + [("Node", "Sparql"), ("TriplePattern", "Node"), ("Node", "BNode"), ("Sparql", "TriplePattern"), ("BNode", "Node", "Sparql")]:
            if any(k not in need for k in ks):
                continue
            sm = m.struct(QM, associations=("L", tuple(m.struct(AS, node_selector=sel_[k]) for k in ks)))
            for state in ("none", "built"):
                d = m.data(m.mem(G1, NONE if state == "none" else Some(m.store(G1))), ())
                st.clear()
                outs = m.call(f, ("p", -1, ()), cells=(rudof(boxed(d), shex_schema_ir=Some(m.I.sym("in", "ir")), shex_validator=Some(m.I.sym("in", "validator")), shapemap=Some(sm)),))
                at = st.get("at")
                ok = bool(outs) and at is not None and at[0] == frozenset(G1) and (at[1] == at[0] or at[1] == "none" and not any(need[k] for k in ks)) and any(o[0][0] == "a" and o[0][2] == "Ok" for o in outs)
                c.ob("prepared", "validate_shex/%s/%s" % ("+".join(ks), state), f.where(), ok, "validating with the selectors %s (SPARQL store %s before) must start with the loaded graph%s: %s" % (
                    ", ".join(ks), state, " and a SPARQL store of it" if any(need[k] for k in ks) else "", at and (fmt(at[0])[:60], fmt(at[1])[:60])))
    # the SHACL processors
    n = 0
    for i, f in sorted(P.fns.items()):
        if not re.search(r"ShaclProcessor<.*>>::prepare_store$", i):
            continue
        ty = P.ty(f.crate, f.d["locals"][1])
        adt = P.ty(f.crate, ty["a"][0]).get("adt") if ty.get("a") else None
        if adt not in P.adts:
            continue
        # a processor owns its data, directly or in a wrapper
        def fill(a, depth=0):
            if a == DATA:
                return m.data(m.mem(G1), ())
            if a not in P.adts or len(P.adts[a]["v"]) != 1 or depth > 4:
                return None
            xs = []
            for fn_, t in P.adts[a]["v"][0]["f"]:
                tt = P.ty(P.adts[a].get("crate", f.crate), t) if t >= 0 else {}
                xs.append(fill(tt.get("adt"), depth + 1) or m.I.sym("in", fn_))
            return ("a", a, "", tuple(xs))
        v = fill(adt)
        find = lambda x: x if x[0] == "a" and x[1] == DATA else next((y for y in (find(z) for z in x[3]) if y), None) if x[0] == "a" else None
        if v is None or find(v) is None:
            continue
        outs = m.call(f, ("p", -1, ()), cells=(v,))
        n += 1
        got = [memstate(m, find(o[1][0]) or T) for o in outs if o[0][0] == "a" and o[0][2] == "Ok"]
        c.ob("prepared", i[:60], f.where(), bool(got) and all(x[0] == frozenset(G1) and x[1] == x[0] for x in got), "preparing the store of %s must build the SPARQL store of its data: %s" % (adt, [(fmt(x[0])[:60], fmt(x[1])[:60]) for x in got]))
    c.ob("prepared", "processors", "", n >= 2, "the SHACL processors over data prepare their SPARQL store (%d found)" % n)
    c.floor("prepared", 30, "entry points x queries x states of the store")


# ---- loading into the facade
RUDOF = "rudof_lib::rudof::Rudof"


def loader(c, P):
    """load_data: merging adds the sources to the data loaded before, not merging replaces it by all of the sources; an endpoint replaces it"""
    f = P.fns.get("rudof_lib::api::data::implementations::load_data::load_data")
    if f is None:
        return c.anchor("load", "load_data", None, "load_data")
    adt = lambda s, crate="rudof_lib": [a for a in P.adts if a.endswith("::" + s) and a.startswith(crate)][0]
    DF, RM, IS, DT = adt("DataFormat"), adt("DataReaderMode"), adt("InputSpec"), adt("Data")
    RU = adt("Rudof")
    docs = {"d1": [("d1", "p", "a"), ("a", "q", "b")], "d2": [("d2", "p", "b"), ("_:m", "p", "b")], "empty": []}
    log = []

    def src(I, st, v):
        v = I.deref(v, st)
        if v[0] == "a" and v[1] == "SRC":
            return v[3][0][1]
        if v[0] == "s":
            return v[1][4:] if v[1].startswith("DOC:") else None
        if v[0] == "y":
            t = I.tag(v)
            if t and t[0] == "cat":
                xs = [src(I, st, x) for x in t[1][1]]
                xs = [x for x in xs if x]
                return xs[0] if len(xs) == 1 else None
            if t and t[0] == "fmt":
                return src(I, st, t[3])
        if v[0] == "a" and v[3]:
            return src(I, st, v[3][0])
        return None

    def h_open(I, site, nm, callee, args, st):
        s = I.deref(args[0], st)
        n = I.deref(s[3][0], st)[1] if s[0] == "a" and s[3] else "?"
        return [(Err(I.sym("in", "E")) if n == "missing" else Ok(("a", "SRC", "", (("s", n),))), st)]

    def h_read(I, site, nm, callee, args, st):
        n = src(I, st, args[0])
        if n is None:
            return None
        if n == "unreadable":
            return [(Err(I.sym("in", "E")), st)]
        ns = st.fork()
        p = args[1]
        I.write_cell(p[1], p[2], ("s", "DOC:" + n), ns)
        return [(Ok(("i", 1)), ns)]

    def h_merge(I, site, nm, callee, args, st):
        n = src(I, st, args[1])
        v = I.deref(args[0], st)
        log.append((n, I.show(I.deref(args[3], st))))
        if n is None or v[0] != "a" or v[1] != DATA:
            return [(Err(I.sym("in", "?")), st)]
        if n == "bad":
            return [(Err(I.sym("in", "E")), st)]
        g, _ = memstate(m, v)
        if g is None:
            return None
        fs = fields(P, v)
        new = m.struct(DATA, **dict(fs, primary=m.backend(m.mem(sorted(g | frozenset(docs[n]), key=repr)))))
        ns = st.fork()
        I.write_cell(args[0][1], args[0][2], new, ns)
        return [(Ok(UNIT), ns)]

    PGA = [a for a in P.adts if a.endswith("pg::PropertyGraph")][0]
    pg = lambda names: ("a", PGA, "", (("L", tuple(("s", x) for x in names)),))

    def h_pg(I, site, nm, callee, args, st):
        k = nm.rsplit("::", 1)[1]
        if k == "new":
            return [(pg([]), st)]
        v, w = I.deref(args[0], st), I.deref(args[1], st)
        if v[0] != "a" or w[0] != "a":
            return None
        ns = st.fork()
        I.write_cell(args[0][1], args[0][2], ("a", PGA, "", (("L", v[3][0][1] + tuple(x for x in w[3][0][1] if x not in v[3][0][1])),)), ns)
        return [(UNIT, ns)]

    def h_pgparse(I, site, nm, callee, args, st):
        n = src(I, st, args[1])
        return [(Err(I.sym("in", "E")) if n in (None, "bad") else Ok(pg([n])), st)]

    one = lambda v: lambda I, s, n, c_, a, st: [(v, st)]
    m = M(P, [(r"InputSpec(?:::)?::open_read$", h_open), (r"InputSpec::(source_name|as_ref)$", lambda I, s, n, c_, a, st: [(("s", "src"), st)]), (r"read_to_string$", h_read), (r"::default_prefix_header$", one(("s", ""))),
              (r"::get_base_iri$", one(Ok(("s", "http://b/")))), (r"RdfData::with_rdf_data_config$", lambda I, s, n, c_, a, st: [(Ok(a[0]), st)]),
              (r"RdfData::merge_from_reader$", h_merge), (r"pg::PropertyGraph::(new|merge)$", h_pg), (r"PgBuilder::parse_pg$", h_pgparse), (r"PgBuilder::new$", one(("a", "PGB", "", ()))),
              (r"Cursor(?:::)?(?:<.*>)?::new$|String::into_bytes$|str::as_bytes$", lambda I, s, n, c_, a, st: [(a[0], st)])])
    I = m.I

    def state(v):
        """("rdf", triples, endpoints in use) / ("pg", sources) / None"""
        if v[0] != "a" or v[1] != RU:
            return "?"
        d = fields(P, v)["data"]
        if d == NONE:
            return None
        if d[0] != "a" or d[2] != "Some":
            return "?"
        d = d[3][0]
        x = d[3][0]
        if d[2] == "PGData":
            return ("pg", frozenset(y[1] for y in x[3][0][1]))
        g, _ = memstate(m, x)
        ue = fields(P, x)["use_endpoints"]
        ue = frozenset(k[1][0][1] for k in ue[1]) if ue[0] == "L" else "?"
        return ("rdf", g, ue)

    E1 = m.endpoint("http://e1/", G2)
    rdfv = lambda g, eps=(): Some(("a", DT, "RDFData", (m.data(m.mem(g), eps, [("wikidata", E1)]),)))
    inits = {"none": (NONE, None), "rdf": (rdfv(G3), ("rdf", frozenset(G3), frozenset())), "rdf empty": (rdfv([]), ("rdf", frozenset(), frozenset())), "endpoint": (rdfv([], [("http://e1/", E1)]), ("rdf", frozenset(), frozenset(["http://e1/"]))),
             "pg": (Some(("a", DT, "PGData", (pg(["p0"]),))), ("pg", frozenset(["p0"])))}
    spec = lambda n: ("a", IS, "Str", (("s", n),))
    mode = Some(("a", RM, "Strict", ()))
    fm = {"Turtle": "rdf", "NTriples": "rdf", "JsonLd": "rdf", "Pg": "pg", None: "rdf"}
    lists = [(), ("d1",), ("d2", "d1"), ("d1", "empty", "d2"), ("d1", "d1"), ("bad",), ("d1", "bad"), ("bad", "d1"), ("missing",), ("d1", "missing", "d2")]
    for fmt_ in fm:
        for iname, (iv, ist) in inits.items():
            for srcs in lists:
                for mg in (Some(TRUE), Some(FALSE), NONE):
                    del log[:]
                    r = m.struct(RU, data=iv)
                    F = Some(("a", DF, fmt_, ())) if fmt_ else NONE
                    outs = m.call(f, ("p", -1, ()), Some(("L", tuple(spec(x) for x in srcs))), F, NONE, NONE, mode, mg, NONE, cells=(r,))
                    kind = fm[fmt_]
                    keep = mg != Some(FALSE) and ist and ist[0] == kind
                    fail = "bad" in srcs or "missing" in srcs
                    if not srcs:
                        want = ist
                    elif kind == "pg":
                        want = ("pg", frozenset(srcs) | (ist[1] if keep else frozenset()))
                    else:
                        want = ("rdf", frozenset(t for x in srcs for t in docs.get(x, ())) | (ist[1] if keep else frozenset()), ist[2] if keep else frozenset())
                    gots = [(o[0][2] if o[0][0] == "a" else "?", state(o[1][0])) for o in outs]
                    if fail:
                        ok = gots and all(g[0] == "Err" for g in gots)
                        msg = "must be an error"
                    else:
                        ok = gots and all(g == ("Ok", want) for g in gots)
                        msg = "must leave %s" % (want and "%s of %s" % (want[0], fmt(want[1]) if want[0] == "rdf" else sorted(want[1])))
                    c.ob("load", "%s/%s/%s/%s" % (fmt_, iname, "+".join(srcs), I.show(mg)), f.where(), bool(ok),
                         "loading %s as %s with merge=%s over %s %s but leaves %s" % (list(srcs), fmt_, I.show(mg), iname, msg, [(g[0], g[1] and (g[1][0], fmt(g[1][1]) if g[1][0] == "rdf" else sorted(g[1][1]))) if g[1] != "?" else g for g in gots][:3]))
    c.floor("load", 600, "formats x data loaded before x sources x merge")
    for iname, (iv, ist) in inits.items():
        for ep in ("wikidata", "http://e1/", "http://new/"):
            outs = m.call(f, ("p", -1, ()), NONE, NONE, NONE, Some(("s", ep)), NONE, NONE, NONE, cells=(m.struct(RU, data=iv),))
            gots = [(o[0][2] if o[0][0] == "a" else "?", state(o[1][0])) for o in outs]
            c.ob("load", "endpoint/%s/%s" % (iname, ep), f.where(), any(g[0] == "Ok" for g in gots) and all(g[0] == "Err" or g == ("Ok", ("rdf", frozenset(), frozenset([ep]))) for g in gots),
                 "loading the endpoint %s over %s must leave that endpoint alone but leaves %s" % (ep, iname, [(g[0], g[1] and g[1][1:]) for g in gots][:3]))
    for d, e in ((Some(("L", (spec("d1"),))), Some(("s", "http://e1/"))), (NONE, NONE)):
        for iname, (iv, ist) in inits.items():
            outs = m.call(f, ("p", -1, ()), d, NONE, NONE, e, NONE, NONE, NONE, cells=(m.struct(RU, data=iv),))
            c.ob("load", "neither or both/%s/%s" % (d == NONE, iname), f.where(), bool(outs) and all(o[0][0] == "a" and o[0][2] == "Err" for o in outs), "data and an endpoint, or none of them, must be an error")



def cached(c, P):
    """the cache of an endpoint: after any history of look-ups (also failed ones) each look-up yields what it would yield without the cache"""
    m = M(P)
    f = by(P, EP, NR, "outgoing_arcs_from_list")
    if f is None:
        return c.anchor("cache", "outgoing_arcs_from_list", None, "outgoing_arcs_from_list of the endpoint")
    calls = [(s, ps, fail) for s, ps in (("a", ("p",)), ("a", ("p", "q")), ("a", ("z", "q")), ("b", ("p",)), ("b", ("q", "p"))) for fail in (False, True)]
    seen, todo = set(), [(("L", ()), "")]

    def step(cache, hist):
        for s, ps, fail in calls:
            m.failing = set(m.ep) if fail else set()
            outs = m.call(f, ep, term(s), ("L", tuple(iri(x) for x in ps)), cells=(cache,))
            m.failing = set()
            d = {}
            for t in sel(G1, s, None, None):
                if t[1] in ps:
                    d.setdefault(t[1], set()).add(t[2])
            key = "%s; %s [%s]%s" % (hist, s, ", ".join(ps), " failing" if fail else "")
            got = arcs2(m, True)(outs)
            # a failing endpoint may be answered from the cache, but never wrongly
            ok = outs and (fail and got == "err" or got == ((frz(d), None),))
            c.ob("cache", key, f.where(), bool(ok), "after the look-ups %s: got %s instead of %s" % (key, got, frz(d)))
            todo.extend((o[1][0], key) for o in outs)

    # the cache is shared behind the reference: the endpoint holds a pointer to it
    ep = m.endpoint("http://e/", G1)
    names = [x[0] for x in P.adts[EP]["v"][0]["f"]]
    ep = ("a", EP, "", tuple(("a", "LOCK", "", (("p", -1, ()),)) if n == "triple_cache" else x for n, x in zip(names, ep[3])))
    # every reachable content of the cache: any history of these look-ups
    while todo and len(seen) < 200:
        cache, hist = todo.pop(0)
        if cache not in seen:
            seen.add(cache)
            step(cache, hist)
    c.ob("cache", "bounded", f.where(), not todo, "the contents of the cache are not bounded by what was looked up")
    c.floor("cache", 60, "reachable contents of the cache x look-ups")


def run(c):
    P = c.prog
    c.rule("lookup", "on every store (graph in memory, SPARQL endpoint, their union) every look-up yields exactly the triples of the graph that match, and an error while an endpoint fails")
    lookup(c, P)
    c.rule("store", "the SPARQL store of a graph in memory is absent or holds exactly its triples: an invariant of every method of &mut self")
    c.rule("mutate", "adding or removing a triple changes exactly that triple; nothing else changes the triples")
    mutate(c, P)
    c.rule("parse", "reading a document adds exactly its triples; a syntax error is an error in strict mode and skips the statement in lax mode")
    parse(c, P)
    c.rule("queries", "a query is put unchanged to the data and to every endpoint in use; the answer is exactly their rows, disjunction or triples, and an error when one fails")
    queries(c, P)
    c.rule("prepared", "every entry point that evaluates SPARQL does so on a store holding the loaded graph")
    prepared(c, P)
    c.rule("load", "loading merges into or replaces the data as asked: nothing of another source, or of the data to be kept, is lost or left")
    loader(c, P)
    c.rule("cache", "the cache of an endpoint never changes an answer, whatever was looked up before")
    cached(c, P)
