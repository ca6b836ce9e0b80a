"""A finite RDF graph for abstract interpretation: the store traits answer from a list of named triples, conversions between the
associated types of a store are the identity on the node they denote."""
import re
from .absint import T, TRUE, FALSE, NONE, Some, Ok, Err, UNIT

RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"


class Mock:
    def __init__(self, prog, triples, failing=()):
        self.prog, self.failing = prog, set(failing)
        self.OBJ = [p for p in prog.adts if p.startswith("rudof_rdf::") and p.endswith("::Object") and {"Iri", "Literal"} <= {v["n"] for v in prog.variants(p)}][0]
        self.CL = [p for p in prog.adts if p.startswith("rudof_rdf::") and p.endswith("::ConcreteLiteral")][0]
        self.NL = [p for p in prog.adts if p.startswith("rudof_rdf::") and p.endswith("::NumericLiteral")][0]
        self.triples = [(self.term(s), p, self.term(o)) for s, p, o in triples]

    # ---- terms: "iri", "_:b", ("int", 3), ("bool", True), ("str", "x"), ("lang", "x", "en"), ("lit", name)
    def term(self, x):
        if isinstance(x, str):
            if x.startswith("_:"):
                return ("a", self.OBJ, "BlankNode", (("s", x[2:]),))
            return ("a", self.OBJ, "Iri", (("s", x),))
        if x[0] == "node":
            return x[1]
        return ("a", self.OBJ, "Literal", (self.lit(x),))

    def lit(self, x):
        if x[0] == "int":
            return ("a", self.CL, "NumericLiteral", (("a", self.NL, "Integer", (("i", x[1]),)),))
        if x[0] == "bool":
            return ("a", self.CL, "BooleanLiteral", (TRUE if x[1] else FALSE,))
        if x[0] == "str":
            return ("a", self.CL, "StringLiteral", (("s", x[1]), NONE))
        if x[0] == "lang":
            return ("a", self.CL, "StringLiteral", (("s", x[1]), Some(("s", x[2]))))
        return ("a", self.CL, "DatatypeLiteral", (("s", x[1]), ("s", "dt")))

    def norm(self, I, v, st):
        """the node a value of an associated type of the store denotes"""
        v = I.deref(v, st)
        n = 0
        while v[0] == "a" and v[1] != self.OBJ and len(v[3]) == 1 and n < 4 and not v[1].endswith("Literal"):
            v = I.deref(v[3][0], st)
            n += 1
        if v[0] == "s":
            return ("a", self.OBJ, "Iri", (v,))
        if v[0] == "a" and v[1] == self.CL:
            return ("a", self.OBJ, "Literal", (v,))
        return v

    def iri(self, v):
        return v[3][0][1] if v[0] == "a" and v[1] == self.OBJ and v[2] == "Iri" and v[3][0][0] == "s" else None

    def kind(self, v):
        if v[0] == "a" and v[1] == self.OBJ:
            return v[2]
        return None

    def ty(self, callee, i):
        try:
            cr, ix = callee[4][i]
            return self.prog.ty(cr, ix)["s"]
        except (IndexError, KeyError, TypeError):
            return ""

    def conv(self, v, want):
        """the value v (a node) as a value of the associated type; None when it is not of that kind"""
        k = self.kind(v)
        want = want.rsplit("::", 1)[-1].strip("<>&' ")
        if want in ("IRI", "IriS", "NamedNode"):
            return v[3][0] if k == "Iri" else None
        if want in ("Literal", "ConcreteLiteral"):
            return v[3][0] if k == "Literal" else None
        if want in ("Subject", "IriOrBlankNode"):
            return v if k in ("Iri", "BlankNode", "Triple") else None
        if want == "BNode":
            return v if k == "BlankNode" else None
        if want in ("Term", "Object"):
            return v
        return False

    def h_try(self, I, s, name, callee, args, st):
        v = self.norm(I, args[0], st)
        if self.kind(v) is None and not (v[0] == "y"):
            return None
        want = self.ty(callee, 0 if "TryFrom" in name or "From" in callee[1].rsplit("::", 2)[-2] and not "TryInto" in callee[1] else 1)
        if self.kind(v) is None:
            return None
        r = self.conv(v, want)
        if r is False:
            return None
        return [(Ok(r) if r is not None else Err(I.sym("in", "E")), st)]

    def h_from(self, I, s, name, callee, args, st):
        tr = callee[5] if len(callee) > 5 and callee[5] else callee[1]
        want = self.ty(callee, 1 if str(tr).endswith("Into") else 0)
        src = self.ty(callee, 0 if str(tr).endswith("Into") else 1)
        ok = r"(^|::)(IRI|IriS|Literal|ConcreteLiteral|Subject|Term|Object|BNode|IriOrBlankNode)>?$"
        if not re.search(ok, want) or not re.search(ok, src.lstrip("&")):
            return None
        v = self.norm(I, args[0], st)
        if self.kind(v) is None:
            return None
        r = self.conv(v, want)
        return [(r, st)] if r not in (None, False) else None

    def match(self, I, m, st):
        m = I.deref(m, st)
        if m[0] == "a" and m[1].endswith("::Any"):
            return None
        return self.norm(I, m, st)

    def select(self, s, p, o):
        return [t for t in self.triples if (s is None or t[0] == s) and (p is None or t[1] == self.iri(p)) and (o is None or t[2] == o)]

    def fail(self, I, p):
        return p is not None and self.iri(p) in self.failing

    def tri(self, I, t):
        return I.sym("tri", t[0], ("a", self.OBJ, "Iri", (("s", t[1]),)), t[2])

    def h_neigh(self, I, s, name, callee, args, st):
        m = name.rsplit("::", 1)[1]
        a = args[1:]
        E = [(Err(I.sym("in", "E")), st)]
        if m == "triples_matching":
            q = [self.match(I, x, st) for x in a]
            if self.fail(I, q[1]):
                return E
            return [(Ok(("L", tuple(self.tri(I, t) for t in self.select(*q)))), st)]
        n = [self.norm(I, x, st) for x in a]
        pos = {"triples_with_predicate": (None, 0, None), "triples_with_subject": (0, None, None), "triples_with_object": (None, None, 0),
               "triples_with_subject_predicate": (0, 1, None), "triples_with_predicate_object": (None, 0, 1)}
        if m in pos:
            q = [n[i] if i is not None else None for i in pos[m]]
            if self.fail(I, q[1]):
                return E
            return [(Ok(("L", tuple(self.tri(I, t) for t in self.select(*q)))), st)]
        if m in ("objects_for", "object_for"):
            if self.fail(I, n[1]):
                return E
            r = []
            for t in self.select(n[0], n[1], None):
                if t[2] not in r:
                    r.append(t[2])
            return [(Ok(("L", tuple(r))) if m == "objects_for" else Ok(Some(r[0]) if r else NONE), st)]
        if m == "subjects_for":
            if self.fail(I, n[0]):
                return E
            r = []
            for t in self.select(None, n[0], n[1]):
                if t[0] not in r:
                    r.append(t[0])
            return [(Ok(("L", tuple(r))), st)]
        if m == "shacl_instances_of":
            r = []
            for t in self.select(None, ("a", self.OBJ, "Iri", (("s", RDFNS + "type"),)), n[0]):
                r.append(t[0])
            return [(Ok(("L", tuple(r))), st)]
        return None

    def h_triple(self, I, s, name, callee, args, st):
        v = I.deref(args[0], st)
        t = I.tag(v) if v[0] == "y" else None
        if not t or t[0] != "tri":
            return None
        m = name.rsplit("::", 1)[1]
        p = t[2][3][0]
        r = {"subj": t[1], "into_subject": t[1], "pred": p, "into_predicate": p, "obj": t[3], "into_object": t[3], "into_components": ("t", (t[1], p, t[3]))}.get(m)
        return [(r, st)] if r is not None else None

    def h_lit(self, I, s, name, callee, args, st):
        v = I.deref(args[0], st)
        if not (v[0] == "a" and v[1] == self.CL):
            return None
        m = name.rsplit("::", 1)[1]
        if m == "to_bool":
            return [(Some(v[3][0]) if v[2] == "BooleanLiteral" else NONE, st)]
        if m == "to_integer":
            return [(Some(v[3][0][3][0]) if v[2] == "NumericLiteral" else NONE, st)]
        if m == "lexical_form":
            if v[2] in ("StringLiteral", "DatatypeLiteral"):
                return [(v[3][0], st)]
            if v[2] == "BooleanLiteral":
                return [(("s", "true" if v[3][0] == TRUE else "false"), st)]
            return [(("s", str(v[3][0][3][0][1])), st)]
        if m == "lang":
            return [(v[3][1] if v[2] == "StringLiteral" else NONE, st)]
        if m == "datatype" and v[2] == "DatatypeLiteral":
            return [(v[3][1], st)]
        if m == "datatype":
            return [(("s", XSD + {"StringLiteral": "string", "BooleanLiteral": "boolean"}.get(v[2], "integer")), st)]
        return None

    def h_term(self, I, s, name, callee, args, st):
        v = self.norm(I, args[0], st)
        k = self.kind(v)
        if k is None:
            return None
        m = name.rsplit("::", 1)[1]
        r = {"is_iri": k == "Iri", "is_blank_node": k == "BlankNode", "is_literal": k == "Literal", "is_triple": k == "Triple"}.get(m)
        return [(TRUE if r else FALSE, st)] if r is not None else None

    def h_focus(self, I, s, name, callee, args, st):
        if name.endswith("set_focus"):
            ns = st.fork()
            ns.G[("focus",)] = self.norm(I, args[1], st)
            return [(UNIT, ns)]
        f = st.G.get(("focus",))
        return [(Some(f) if f else NONE, st)]

    def handlers(self):
        ident = lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]
        pm = lambda I, s, n, cc, a, st: [(Some(I.sym("in", "PREFIXES")), st)]
        return [(r"Rdf(<.*>)?(>)?::prefixmap$", pm), (r"FocusRDF(<.*>)?(>)?::(set_focus|get_focus)$", self.h_focus),
                (r"NeighsRDF(<.*>)?(>)?::(triples_matching|triples_with_\w+|objects_for|object_for|subjects_for|shacl_instances_of)$", self.h_neigh),
                (r"Triple(<.*>)?(>)?::(subj|pred|obj|into_subject|into_predicate|into_object|into_components)$", self.h_triple),
                (r"Literal(<.*>)?(>)?::(to_bool|to_integer|lexical_form|lang|datatype)$", self.h_lit),
                (r"Term(<.*>)?(>)?::(is_iri|is_blank_node|is_literal|is_triple)$", self.h_term),
                (r"IriS::new_unchecked$|NamedNode::new_unchecked$|IriS::named_node$|NamedNode::as_str$|IriS::as_str$|Iri(<.*>)?(>)?::as_str$", ident),
                (r"TryFrom(<.*>)?(>)?::try_from$|TryInto(<.*>)?(>)?::try_into$", self.h_try),
                (r"convert::From(<.*>)?(>)?::from$|convert::Into(<.*>)?(>)?::into$", self.h_from)]


def run_parser(I, prog, par, mock, focus):
    """outcomes of a node parser (a value of a combinator type) on a focus node"""
    pf = [x for x in prog.fns.values() if x.id.endswith("::parse_focused") and re.match(r"<%s\b" % re.escape(par[1]), x.id)]
    if len(pf) != 1:
        return []
    return I.exec_fn(pf[0], (par, ("p", -1, ())), (I.sym("in", "STORE"),), {("focus",): mock.term(focus)}, (), ())
