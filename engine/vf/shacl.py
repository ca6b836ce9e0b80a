"""Frame for the SHACL component tables: Engine::evaluate of both engines, interpreted with one component."""
import re
from .table import *
from .absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE

EVAL = {"native": "<shacl::validator::engine::native::NativeEngine as shacl::validator::engine::Engine<RDF>>::evaluate",
        "sparql": "<shacl::validator::engine::sparql::SparqlEngine as shacl::validator::engine::Engine<S>>::evaluate"}
COMP = "shacl::ir::components::"


def eval_fn(prog, which):
    c = [f for f in prog.fns.values() if f.name == "evaluate" and "engine::Engine<" in f.id and
         ("::NativeEngine as" if which == "native" else "::SparqlEngine as") in f.id]
    return c[0] if len(c) == 1 else None


def ident(v):
    return lambda I, s, n, c, a, st: [(v, st)]


class Frame:
    pred_path = False
    allowed = ()
    """value_nodes: list of (focus name, [value names])"""

    def __init__(self, prog, which, extra=(), vns=(("F", ("v1",)),), **kw):
        self.prog = prog
        self.which = which
        h = list(extra) + [
            (r"::get_shape_from_idx_e$", self.h_shape_e),
            (r"::get_shape_from_idx$", self.h_shape_o),
            (r"engine::validate::Validate::validate$|::Validate<.*>>::validate$", self.h_validate),
            (r"::term_as_object$", self.h_obj),
            (r"Engine::has_validated$", self.h_has),
            (r"Engine::get_cached_results$", self.h_cached),
            (r"^shacl::ir::shape::IRShape::(id|severity|message|path|allowed_properties)$", self.h_shape_acc),
        ]
        self.I = new_interp(prog, h, **kw)
        I = self.I
        self.vns = [(I.sym("in", f), [I.sym("in", n) for n in ns]) for f, ns in vns]
        self.shape = I.sym("in", "SHAPE")
        self.path = I.sym("in", "PATH")
        self.schema = I.sym("in", "SCHEMA")
        self.store = I.sym("in", "STORE")

    def h_shape_acc(self, I, site, name, callee, args, st):
        """accessors of a shape are decided by their own rule; here they are names"""
        v = I.deref(args[0], st)
        if v[0] != "y":
            return None
        m = name.rsplit("::", 1)[1]
        if m == "message":
            return [(NONE, st)]
        if m == "allowed_properties":
            return [(("L", tuple(("s", x) for x in self.allowed)), st)]
        return [(I.sym("shape." + m, v), st)]

    def h_shape_e(self, I, site, name, callee, args, st):
        return [(Ok(I.sym("shape", I.deref(args[1], st))), st)]

    def h_shape_o(self, I, site, name, callee, args, st):
        return [(Some(I.sym("shape", I.deref(args[1], st))), st)]

    def obj(self, t):
        return self.I.sym("obj", t)

    def h_obj(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] == "T":
            return None
        return [(Ok(self.obj(v)), st)]

    def targets(self, v, st):
        """the node list of Option<&FocusNodes>"""
        v = self.I.deref(v, st)
        if v[0] == "a" and v[2] == "Some":
            v = self.I.deref(v[3][0], st)
        while v[0] == "a" and v[3]:
            v = v[3][0]
        return v

    def atom(self, shape, node):
        return self.I.sym("conforms", shape, node)

    def conforms(self, idx, node):
        """atom: the value node conforms to the shape of this index"""
        I = self.I
        return bool_atom(I, "%s(%s)" % (I.show(idx), I.show(node)), self.atom(I.sym("shape", idx), node))

    def h_validate(self, I, site, name, callee, args, st):
        if callee[0] == "f" and not callee[1].endswith("validate::Validate::validate"):
            return None
        sh = I.deref(args[0], st)
        tg = self.targets(args[3], st)
        node = tg[1][0] if tg[0] == "L" and len(tg[1]) == 1 else I.sym("badtargets", tg)
        y = self.atom(sh, node)
        out = []
        for val, ns in I.split_bool(y, st):
            if val:
                out.append((Ok(("L", ())), ns))
            else:
                out.append((Ok(("L", (I.sym("result", sh, node),))), ns))
        return out

    def h_has(self, I, site, name, callee, args, st):
        return [(I.sym("hasvalidated", I.deref(args[1], st), I.deref(args[2], st)), st)]

    def h_cached(self, I, site, name, callee, args, st):
        """the cache answers for (node, shape) what validation answered: the results recorded for the pair"""
        o = I.deref(args[1], st)
        t = I.tag(o)
        node = t[1] if t and t[0] == "obj" else o
        sh = I.sym("shape", I.deref(args[2], st))
        h = I.sym("hasvalidated", o, I.deref(args[2], st))
        out = []
        for has, ns in I.split_bool(h, st):
            if not has:
                out.append((NONE, ns))
                continue
            y = self.atom(sh, node)
            for val, n2 in I.split_bool(y, ns):
                out.append((Some(("L", () if val else (I.sym("result", sh, node),))), n2))
        return out

    def comp(self, cname, inner, variant=None):
        v = ("a", "shacl::ir::component::IRComponent", variant or cname, (inner,))
        return v

    def run(self, component):
        I = self.I
        f = eval_fn(self.prog, self.which)
        if f is None:
            raise KeyError("evaluate of the %s engine" % self.which)
        self.fn = f
        vn = ("a", "shacl::validator::nodes::value::ValueNodes", "", (("L", tuple(("t", (f, self.fnodes(ns))) for f, ns in self.vns)),))
        args = [None] * f.argc
        for i in range(f.argc):
            t = f.local_ty(i + 1)["s"]
            if "IRComponent" in t:
                args[i] = component
            elif "ValueNodes" in t:
                args[i] = vn
            elif "Option<&" in t and "IRShape" in t:
                args[i] = Some(I.sym("in", "SOURCE"))
            elif "IRShape" in t:
                args[i] = self.shape
            elif "SHACLPath" in t:
                args[i] = Some(self.path)
            elif "IRSchema" in t:
                args[i] = self.schema
        self.component = component
        return absint.run(self.prog, f, args, interp=I)[1]

    def fnodes(self, nodes):
        return ("a", "shacl::validator::nodes::focus::FocusNodes", "", (("L", tuple(nodes)),))


def results(outcome):
    """tuple of result values, 'err' or None if not exact"""
    v = outcome[0]
    if v[0] == "a" and v[2] == "Err":
        return "err"
    if v[0] == "a" and v[2] == "Ok" and v[3][0][0] == "L":
        return v[3][0][1]
    return None


def iri_text(I, v):
    """the string inside an IRI value"""
    for _ in range(8):
        if v[0] == "s":
            return v[1]
        if v[0] == "a" and v[3]:
            v = v[3][0]
        elif v[0] == "y" and I.tag(v)[0] == "call" and I.tag(v)[2]:
            v = I.tag(v)[2][0]
        else:
            return None
    return None


SH = "http://www.w3.org/ns/shacl#"


def describe(F, r):
    """(focus, value, component local name, path ok, source ok, severity ok) of one result value"""
    I = F.I
    d = fields(F.prog, r)
    if not d:
        return ("?", I.show(r))

    def node(v):
        t = I.tag(v) if v[0] == "y" else None
        if v[0] == "a" and v[2] == "Iri" and v[3][0][0] == "s":
            return v[3][0][1]
        return I.show(t[1]) if t and t[0] == "obj" else "?" + I.show(v)
    val = d["value"]
    value = None if val == NONE else node(val[3][0]) if val[0] == "a" and val[2] == "Some" else "?"
    comp = iri_text(I, d["constraint_component"]) or "?"
    pth = d["path"] == Some(F.path)
    if F.pred_path:
        # the path of the result is the predicate
        q = iri_text(I, d["path"])
        return (node(d["focus_node"]), value, comp.replace(SH, "sh:"), q if q is not None and d["source"] == Some(I.sym("shape.id", F.shape))
                and d["severity"] == I.sym("shape.severity", F.shape) else "bad " + I.show(d["path"])[:80])
    ok = pth, d["source"] == Some(I.sym("shape.id", F.shape)), d["severity"] == I.sym("shape.severity", F.shape)
    return (node(d["focus_node"]), value, comp.replace(SH, "sh:")) + (("" if all(ok) else "bad " + ",".join(
        n for n, x in zip(("path", "source", "severity"), ok) if not x)),)


def verdict(F):
    def f(o):
        rs = results(o)
        if rs == "err":
            return "error"
        if rs is None:
            return "not exact: " + F.I.show(o[0])
        return frozenset(describe(F, r) for r in rs)
    return f


# ------------------------------------------------------------------ value semantics
OBJ = "rudof_rdf::rdf_core::term::triple::Object"
KINDS = ("Iri", "BlankNode", "Literal")


def const_kind(text):
    return "BlankNode" if text.startswith("_:") else "Literal" if text.startswith('"') else "Iri"


class VFrame(Frame):
    """Frame with a term algebra: every term t has a kind (the variant of obj(t)), iri(t)/lit(t)/text(t) parts, and a store given
    as {(node, predicate): [nodes]}; SPARQL queries are parsed from the abstract string and evaluated over the same atoms."""

    def __init__(self, prog, which, vns=(("F", ("v1",)),), store=None, extra=(), **kw):
        R = r"(rdf::Rdf|Rdf)(<.*>)?>?::"
        h = list(extra) + [
            (r"::term_as_object$", self.h_t2o), (r"::object_as_term$", self.h_o2t),
            (r"::term_as_iri$|::term_as_iris$", self.h_part("Iri", "iri")), (r"::term_as_literal$|::term_as_sliteral$", self.h_part("Literal", "lit")),
            (r"::term_as_bnode$", self.h_part("BlankNode", "bnode")), (r"::term_as_subject$", self.h_subj), (r"::subject_as_term$", self.h_s2t),
            (r"term::(term::)?Term::is_(iri|blank_node|literal|triple)$", self.h_is),
            (r"term::(term::)?Term::kind$", self.h_kind),
            (r"term::(term::)?Term::lexical_form$|literal::Literal::lexical_form$|term::iri::Iri::as_str$", self.h_text),
            (r"literal::Literal::lang$", self.h_lang), (r"literal::Literal::datatype$", self.h_dt),
            (r"core::cmp::PartialOrd::(partial_cmp|lt|le|gt|ge)$", self.h_cmp),
            (r"core::convert::(Into::into|From::from|TryInto::try_into|TryFrom::try_from)$", self.h_conv),
            (r"neighs_rdf::NeighsRDF::(triples_with_subject_predicate|triples_with_subject|triples_with_predicate|triples_matching|objects_for|subjects_for)$", self.h_store),
            (r"term::triple::Triple::(subj|pred|obj|into_subject|into_predicate|into_object|into_components)$", self.h_triple),
            (r"query_rdf::QueryRDF::query_ask$", self.h_ask), (r"query_rdf::QueryRDF::query_select$", self.h_select),
            (r"QuerySolution(::<.*>)?::find_solution$", self.h_sol), (r"QuerySolutions(::<.*>)?::iter$", self.h_sols),
            (r"prefixmap::.*::qualify\w*$", self.h_opq), (r"IriS::as_str$", self.h_same),
            (r"RDFRegex::new$", self.h_rxnew), (r"RDFRegex::is_match$", self.h_rxmatch),
            (r"core::str::<impl str>::chars$", self.h_chars), (r"Iterator::count$", self.h_count),
            (r"core::str::<impl str>::to_(ascii_)?lowercase$|str::.*::to_(ascii_)?lowercase$", self.h_lower),
            (r"ToString::to_string$", self.h_tostr), (r"core::str::<impl str>::(starts_with|strip_prefix|eq_ignore_ascii_case|is_empty)$|alloc::string::String::is_empty$", self.h_strp),
            (r"^shacl::", self.h_shacl),
        ]
        super().__init__(prog, which, extra=h, vns=vns, **kw)
        self.edges = store or {}
        self.problems = set()

    def h_shacl(self, I, site, name, callee, args, st):
        """functions recognised by their signature: Object/term -> SPARQL text, string escaping"""
        f = self.prog.fns.get(callee[2] or name) or self.prog.fns.get(name)
        if f is None or f.kind != "fn":
            return None
        if f.argc == 1:
            a, r = f.local_ty(1)["s"], f.local_ty(0)["s"]
            if r.replace("alloc::string::", "std::string::") == "core::option::Option<std::string::String>" or (
                    "Option<" in r and r.rstrip(">").endswith("String")):
                x = I.deref(args[0], st)
                if a.endswith("Object"):
                    return self.sparql_of(x, st)
                if a.startswith("&"):
                    return self.sparql_of(self.obj(x), st)
            if r.endswith("string::String") and f.name.startswith("escape"):
                return [(I.sym("esc", I._noptr(I.deref(args[0], st))), st)]
        return None

    def sparql_of(self, o, st):
        I = self.I
        out = []
        for n, v, s in I.split_variant(o, OBJ, st):
            if n in ("Iri", "Literal"):
                out.append((Some(I.sym("sparql", o)), s))
            else:
                out.append((NONE, s))
        return out

    # ---- terms
    def obj(self, t):
        if t[0] == "s":         # a constant IRI, blank node or literal
            return ("a", OBJ, const_kind(t[1]), (t,))
        tg = self.I.tag(t) if t[0] == "y" else None
        if tg and tg[0] == "term":
            return tg[1]
        return self.I.sym("obj", t)

    def term(self, o):
        if o[0] == "a" and o[2] in ("Iri", "BlankNode", "Literal") and o[3][0][0] == "s":
            return o[3][0]
        tg = self.I.tag(o) if o[0] == "y" else None
        if tg and tg[0] == "obj":
            return tg[1]
        return self.I.sym("term", o)

    def part(self, t, p):
        tg = self.I.tag(t) if t[0] == "y" else None
        return self.I.sym(p, t)

    def val(self, I, a, st):
        v = I.deref(a, st)
        return v if v[0] in ("y", "a", "s") else None

    def h_t2o(self, I, site, name, callee, args, st):
        v = self.val(I, args[0], st)
        return None if v is None else [(Ok(self.obj(v)), st)]

    def h_o2t(self, I, site, name, callee, args, st):
        v = self.val(I, args[0], st)
        return None if v is None else [(self.term(v), st)]

    def h_part(self, kind, p):
        def f(I, site, name, callee, args, st):
            t = self.val(I, args[0], st)
            if t is None:
                return None
            return [((Ok(I.sym(p, t)) if n == kind else Err(I.sym("not" + p, t))), s) for n, v, s in I.split_variant(self.obj(t), OBJ, st)]
        return f

    def h_subj(self, I, site, name, callee, args, st):
        t = self.val(I, args[0], st)
        if t is None:
            return None
        return [((Err(I.sym("notsubj", t)) if n == "Literal" else Ok(I.sym("subj", t))), s) for n, v, s in I.split_variant(self.obj(t), OBJ, st)]

    def h_s2t(self, I, site, name, callee, args, st):
        v = self.val(I, args[0], st)
        tg = I.tag(v) if v is not None and v[0] == "y" else None
        return [(tg[1], st)] if tg and tg[0] == "subj" else None

    def h_is(self, I, site, name, callee, args, st):
        t = self.val(I, args[0], st)
        if t is None:
            return None
        want = {"iri": "Iri", "blank_node": "BlankNode", "literal": "Literal", "triple": "Triple"}[name.rsplit("::is_", 1)[1]]
        return [(("b", n == want), s) for n, v, s in I.split_variant(self.obj(t), OBJ, st)]

    def h_kind(self, I, site, name, callee, args, st):
        t = self.val(I, args[0], st)
        if t is None:
            return None
        adt = [p for p in self.prog.adts if p.endswith("::TermKind")]
        return [(("a", adt[0], n, ()), s) for n, v, s in I.split_variant(self.obj(t), OBJ, st)]

    def h_text(self, I, site, name, callee, args, st):
        v = self.val(I, args[0], st)
        if v is None:
            return None
        tg = I.tag(v) if v[0] == "y" else None
        if tg and tg[0] in ("iri", "lit"):
            return [(I.sym("text", tg[1]), st)]
        if name.endswith("term::Term::lexical_form"):
            return [(I.sym("text", v), st)]
        return None

    def h_lang(self, I, site, name, callee, args, st):
        v = self.val(I, args[0], st)
        if v is None:
            return None
        y = I.sym("lang", v)
        return [((Some(self.langval(I.sym("langtext", v))) if n == "Some" else NONE), s) for n, _, s in I.split_variant(y, absint.OPT, st)]

    def langval(self, text):
        adt = [p for p in self.prog.adts if p.endswith("literal::lang::Lang")]
        return ("a", adt[0], "", (text,))

    def h_tostr(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] == "a" and v[1].endswith("literal::lang::Lang"):
            return [(v[3][0], st)]
        return None

    def h_strp(self, I, site, name, callee, args, st):
        """prefix tests on named texts; rest(x, y) is what follows the prefix y in x"""
        a = I.deref(args[0], st)
        m = name.rsplit("::", 1)[1]
        t = I.tag(a) if a[0] == "y" else None
        if t is None:
            return None
        if m == "is_empty":
            return [(I.compare("Eq", t[1], t[2], st), st)] if t[0] == "rest" else None
        b = I.deref(args[1], st)
        if m == "eq_ignore_ascii_case":
            return [(I.compare("Eq", I.sym("lower", a), I.sym("lower", b), st), st)] if b[0] == "y" else None
        if t[0] == "rest" and m == "starts_with" and b[0] in ("s", "ch", "c"):
            return [(I.sym("prefix", t[1], I.sym("cat", ("t", (t[2], ("s", b[1]))))), st)]
        if b[0] != "y":
            return None
        if m == "starts_with":
            return [(I.sym("prefix", a, b), st)]
        return [((Some(I.sym("rest", a, b)) if x else NONE), s) for x, s in I.split_bool(I.sym("prefix", a, b), st)]

    def h_dt(self, I, site, name, callee, args, st):
        v = self.val(I, args[0], st)
        ref = [p for p in self.prog.adts if p.endswith("iri_ref::IriRef")]
        return None if v is None else [(("a", ref[0], "Iri", (I.sym("dt", v),)), st)]

    def h_opq(self, I, site, name, callee, args, st):
        return [(I.sym("call", name, tuple(I._noptr(I.deref(a, st)) for a in args)), st)]

    def h_same(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        return [(v, st)] if v[0] == "y" else None

    def h_cmp(self, I, site, name, callee, args, st):
        a, b = I.deref(args[0], st), I.deref(args[1], st)
        if a[0] != "y" or b[0] != "y":
            return None
        m = name.rsplit("::", 1)[1]
        if m == "partial_cmp":
            return [(I.sym("pordering", a, b), st)]
        return [(I.compare(m.capitalize(), a, b, st, True), st)]

    def h_conv(self, I, site, name, callee, args, st):
        v = self.val(I, args[0], st)
        if v is not None and v[0] != "y":
            if self.term(v)[0] == "s" and (v[0] == "a" or self.const_iri):
                dst = self.conv_dst(I, site, callee, name) or ""
                if v[0] == "a" and dst.endswith("::Term"):
                    return [(self.term(v), st)]
                if v[0] == "s" and re.search(r"IriS$|::IRI$|NamedNode$|::Term$", dst):
                    return [(v, st)]
            return None
        if v is None:
            return None
        tg = I.tag(v)
        # conversions between the term types keep the identity of the node
        t = [I.gtype(site.fn, g, None)[0]["s"] if False else None for g in ()]
        dst = self.conv_dst(I, site, callee, name)
        if dst is None:
            return None
        wrap = (lambda x: Ok(x)) if "try" in name.rsplit("::", 1)[1] else (lambda x: x)
        if dst.endswith("ConcreteLiteral") and tg[0] == "lit" and "try" in name.rsplit("::", 1)[1]:
            return [((Ok(I.sym("conc", v)) if ok else Err(I.sym("nolit", v))), s) for ok, s in I.split_bool(I.sym("parses", v), st)]
        if dst.endswith("::Term") and not dst.endswith("TermKind"):
            if tg[0] == "subj":
                return [(wrap(tg[1]), st)]
            if tg[0] in ("obj",) or v in self.objs():
                return [(wrap(self.term(v)), st)]
            if tg[0] == "iri":
                return [(wrap(tg[1]), st)]
        return None

    def objs(self):
        return getattr(self, "_objs", ())

    def conv_dst(self, I, site, callee, name):
        g = callee[4]
        if len(g) < 2:
            return None
        i = 1 if name.rsplit("::", 1)[1] in ("into", "try_into") else 0
        try:
            return site.fn and I.prog.ty(g[i][0], g[i][1])["s"].rstrip(">").replace("<S as ", "").split(" ")[-1]
        except Exception:
            return None

    const_iri = False

    # ---- store
    def triples(self, s, p):
        return self.edges.get((s, p), [])

    def h_store(self, I, site, name, callee, args, st):
        m = name.rsplit("::", 1)[1]
        a = [I.deref(x, st) for x in args]
        def un(v, k):
            tg = I.tag(v) if v[0] == "y" else None
            return tg[1] if tg and tg[0] == k else v
        tri = lambda s, p, o: ("a", "qtriple", "", (I.sym("subj", s), p, o))
        if m == "triples_with_subject_predicate":
            s = un(a[1], "subj")
            return [(Ok(("it", ("L", tuple(tri(s, a[2], o) for o in self.triples(s, self.predname(a[2])))))), st)]
        if m == "triples_with_subject":
            s = un(a[1], "subj")
            return [(Ok(("it", ("L", tuple(tri(s, self.predterm(p), o) for (ss, p), os in sorted(self.edges.items(), key=str) if ss == s for o in os)))), st)]
        if m == "objects_for":
            if a[1][0] == "y":
                return [((Err(I.sym("notsubj", a[1])) if n == "Literal" else Ok(("L", tuple(self.triples(a[1], self.predname(a[2])))))), s)
                        for n, _, s in I.split_variant(self.obj(a[1]), OBJ, st)]
            return [(Ok(("L", tuple(self.triples(a[1], self.predname(a[2]))))), st)]
        return None

    def predname(self, p):
        """predicates are identified by the IRI value they come from"""
        t = iri_text(self.I, p)
        if t is not None:
            return t
        for _ in range(6):
            tg = self.I.tag(p) if p[0] == "y" else None
            if tg and tg[0] == "call" and len(tg[2]) == 1:
                p = tg[2][0]
            elif p[0] == "a" and len(p[3]) == 1:
                p = p[3][0]
            else:
                break
        return p

    def h_triple(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != "qtriple":
            return None
        m = name.rsplit("::", 1)[1]
        s, p, o = v[3]
        r = {"subj": s, "into_subject": s, "pred": p, "into_predicate": p, "obj": o, "into_object": o, "into_components": ("t", (s, p, o))}[m]
        return [(r, st)]

    def h_sol(self, I, site, name, callee, args, st):
        v, x = I.deref(args[0], st), I.deref(args[1], st)
        if v[0] != "a" or v[1] != "qsol" or x[0] != "s":
            return None
        for k, w in v[3]:
            if k == x:
                return [(Some(w), st)]
        return [(NONE, st)]

    def h_sols(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        return [(("it", v), st)] if v[0] == "L" else None

    def h_rxnew(self, I, site, name, callee, args, st):
        p, f = I.deref(args[0], st), I.deref(args[1], st)
        return [(Ok(I.sym("regex", I._noptr(p), I._noptr(f))), st)]

    def h_rxmatch(self, I, site, name, callee, args, st):
        r, t = I.deref(args[0], st), I.deref(args[1], st)
        if r[0] == "y" and t[0] == "y":
            return [(I.sym("matches", r, t), st)]
        return None

    def h_chars(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        return [(I.sym("chars", v), st)] if v[0] == "y" and I.tag(v)[0] == "text" else None

    def h_count(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] == "it":
            v = v[1]
        return [(I.sym("strlen", I.tag(v)[1]), st)] if v[0] == "y" and I.tag(v)[0] == "chars" else None

    def h_lower(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] == "y" and I.tag(v)[0] == "lower":
            return [(v, st)]
        return [(I.sym("lower", v), st)] if v[0] == "y" else None

    def regex(self, ev, t, pat, fl, st):
        """REGEX(STR(t), pat, fl) means the same as the native matcher when both get the pattern and flags of the component"""
        from . import sparql
        I = self.I
        want = (I.sym("esc", self.pat[0]),), ((I.sym("esc", self.pat[1]),) if self.pat[1] is not None else None)
        if (pat, fl) != want:
            raise sparql.Bad("REGEX with another pattern or flags: %s %s" % ([I.show(x) for x in pat], fl and [I.show(x) for x in fl]))
        return I.split_bool(I.sym("matches", I.sym("regex", self.pat[0], Some(self.pat[1]) if self.pat[1] is not None else NONE), I.sym("text", t)), st)

    # ---- paths
    def predterm(self, p):
        return ("s", p) if isinstance(p, str) else I.sym("predof", p)

    def preds(self, v):
        if isinstance(v, tuple) and v[0] == "s":
            return v[1]
        if isinstance(v, tuple) and v[0] == "iri" and isinstance(v[1], str):
            return v[1]
        return None

    def reach(self, p, nodes, ev):
        """nodes reached from a list of nodes over a property path of constant predicates"""
        from . import sparql
        if p[0] == "iri":
            return [o for n in nodes for o in self.triples(n, ev.predkey(ev.iriname(p[1])))]
        if p[0] == "seq":
            for q in p[1]:
                nodes = self.reach(q, nodes, ev)
            return nodes
        if p[0] in ("star", "plus"):
            seen = list(nodes) if p[0] == "star" else []
            front = list(nodes)
            while front:
                front = [x for x in self.reach(p[1], front, ev) if x not in seen]
                seen += front
            return seen
        raise sparql.Bad("path " + p[0])

    def same_const(self, x, y):
        """equality of two constant terms"""
        from . import sparql
        n = lambda v: self.preds(v) if v[0] in ("s", "iri") else None
        a, b = n(x), n(y)
        if a is None or b is None:
            raise sparql.Bad("matching of terms that are no constants")
        return a == b

    def path_query(self, ev, p, sv, ov, o, b, st, s=None):
        from . import sparql
        out = []
        if sv is None:
            # every subject of the store
            bs = []
            for ss in dict.fromkeys(k[0] for k in sorted(self.edges, key=str)):
                hits = self.reach(p, [ss], ev)
                if ov is None:
                    bs += [dict(b, **{s[1]: ss, o[1]: x}) for x in dict.fromkeys(hits)]
                elif any(self.same_const(x, ov) for x in hits):
                    bs.append(dict(b, **{s[1]: ss}))
            return [(bs, st)]
        for n, _, s in ev.I.split_variant(self.obj(sv), OBJ, st):
            if n == "Literal":
                out.append(("err", s))
                continue
            hits = self.reach(p, [sv], ev)
            if ov is None:
                out.append(([dict(b, **{o[1]: x}) for x in dict.fromkeys(hits)], s))
            else:
                out.append(([b] if ov in hits else [], s))
        return out

    # ---- SPARQL
    def query(self, q):
        from . import sparql
        I = self.I
        if q[0] == "s":
            parts = [q]
        elif q[0] == "y" and I.tag(q)[0] == "cat":
            parts = list(I.tag(q)[1][1])
        else:
            raise sparql.Bad("query text unknown: " + I.show(q)[:200])
        return sparql.parse(parts)

    def h_ask(self, I, site, name, callee, args, st):
        from . import sparql
        q = I.deref(args[1], st)
        try:
            ast = self.query(q)
            if ast[0] != "ask":
                raise sparql.Bad("not an ASK query")
            out = []
            for sols, s in sparql.Eval(self).group(ast[1], [{}], st):
                if sols == "err":
                    out.append((Err(I.sym("queryerror", "syntax")), s))
                else:
                    out.append((Ok(("b", bool(sols))), s))
            return out
        except sparql.Bad as e:
            self.problems.add(str(e))
            return [(Ok(I.sym("ask?", str(e))), st)]

    def h_select(self, I, site, name, callee, args, st):
        from . import sparql
        q = I.deref(args[1], st)
        try:
            ast = self.query(q)
            if ast[0] != "select":
                raise sparql.Bad("not a SELECT query")
            out = []
            for sols, s in sparql.Eval(self).group(ast[2], [{}], st):
                if sols == "err":
                    out.append((Err(I.sym("queryerror", "syntax")), s))
                else:
                    vs = ast[1]
                    if ast[3]:
                        if len(sols) > 1 and any(x[0] != "s" for b in sols for x in b.values()):
                            raise sparql.Bad("DISTINCT over terms that are no constants")
                        sols = [dict(t) for t in dict.fromkeys(tuple((v, b[v]) for v in vs if v in b) for b in sols)]
                    out.append((Ok(("L", tuple(("a", "qsol", "", tuple((("s", v), b[v]) for v in vs if v in b)) for b in sols))), s))
            return out
        except sparql.Bad as e:
            self.problems.add(str(e))
            return [(Ok(I.sym("select?", str(e))), st)]


def kind_atom(F, t):
    o = F.obj(t)
    return Atom("kind(%s)" % F.I.show(t), KINDS, lambda G: set(G.get(("d", o), KINDS)) & set(KINDS))


def eq_atom(F, name, *pairs):
    """equality of two terms, whichever of the equivalent pairs the code compares"""
    I = F.I

    def get(G):
        r = {True, False}
        for a, b in pairs:
            o = set(I.ord_set(a, b, State({}, G), False))
            if "E" not in o:
                r -= {True}
            if o == {"E"}:
                r -= {False}
        return r
    return Atom(name, (True, False), get)


def ordm_atom(F, name, dom, *pairs):
    """ordering decided through any of the equivalent pairs"""
    I = F.I

    def get(G):
        r = set(dom)
        for a, b in pairs:
            r &= set(I.ord_set(a, b, State({}, G), "N" in dom))
        return r
    return Atom(name, dom, get)
