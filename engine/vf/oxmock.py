"""The oxrdf data model for abstract interpretation: terms, triples and `Graph` as finite values, its index look-ups by their definition.
A graph is the value Graph([triples]); a triple is Triple(subject, predicate, object); terms are variants of Term whatever the wrapper type."""
import re
from .absint import T, TRUE, FALSE, NONE, Some, Ok, Err, UNIT

TERM, NAMED, BNODE, TRI, GRAPH = ("oxrdf::triple::Term", "oxrdf::named_node::NamedNode", "oxrdf::blank_node::BlankNode", "oxrdf::triple::Triple", "oxrdf::graph::Graph")


def iri(x):
    return ("a", NAMED, "", (("s", x),))


def term(x):
    """"iri", "_:b", ("lit", lexical)"""
    if isinstance(x, str):
        if x.startswith("_:"):
            return ("a", TERM, "BlankNode", (("a", BNODE, "", (("s", x[2:]),)),))
        return ("a", TERM, "NamedNode", (iri(x),))
    return ("a", TERM, "Literal", (("a", "oxrdf::literal::Literal", "", (("s", x[1]),)),))


def triple(s, p, o):
    return ("a", TRI, "", (term(s), iri(p), term(o)))


def name(v):
    """the term a value stands for, as written in term(); None when it is not known"""
    n = 0
    while v[0] == "a" and n < 6:
        if v[1] == NAMED and v[3][0][0] == "s":
            return v[3][0][1]
        if v[1] == BNODE and v[3][0][0] == "s":
            return "_:" + v[3][0][1]
        if v[1] == "oxrdf::literal::Literal" and v[3] and v[3][0][0] == "s":
            return ("lit", v[3][0][1])
        if len(v[3]) != 1:
            return None
        v = v[3][0]
        n += 1
    if v[0] == "s":
        return v[1]
    return None


def spo(v):
    """(s, p, o) of a triple or quad value"""
    if v[0] != "a" or v[1] not in (TRI, "QUAD") or len(v[3]) < 3:
        return None
    r = tuple(name(x) for x in v[3][:3])
    return None if None in r else r


def show_term(x):
    return x if isinstance(x, str) and x.startswith("_:") else "<%s>" % x if isinstance(x, str) else '"%s"' % x[1]


class Ox:
    def __init__(self, prog):
        self.prog = prog

    def graph(self, triples):
        return ("a", GRAPH, "", (("L", tuple(triple(*t) for t in triples)),))

    def triples_of(self, v):
        """the set of triples of a graph value; None when it is not known"""
        if v[0] == "a" and v[1] == GRAPH and v[3][0][0] == "L":
            xs = [spo(x) for x in v[3][0][1]]
            return None if None in xs else frozenset(xs)
        return None

    def handlers(self):
        return [(r"(^|<)oxrdf::graph::Graph(?:::)?(?:<.*?>)?::(\w+)$|oxrdf::graph::Graph as ", self.h_graph),
                (r"core::default::Default(>)?::default$", self.h_default),
                (r"oxrdf::triple::(Triple|TripleRef|Quad|QuadRef)(?:::)?(?:<.*?>)?::(\w+)$", self.h_triple),
                (r"<&?oxrdf::\S+ as alloc::(borrow::ToOwned>::to_owned|string::ToString>::to_string)$|^alloc::string::ToString::to_string$|core::fmt::Display>?::fmt$", self.h_show),
                (r"oxrdf::\w+::(NamedNode|NamedNodeRef|BlankNode|BlankNodeRef|Literal|LiteralRef|Term|TermRef|NamedOrBlankNode|NamedOrBlankNodeRef)(?:::)?(?:<.*?>)?::(into_owned|as_ref|to_owned|new_unchecked|as_str|into_string)$", self.h_same),
                (r"core::convert::(From|Into|TryFrom|TryInto)>?::(from|into|try_from|try_into)$| as core::convert::(From|TryFrom)<.*>>::(from|try_from)$", self.h_conv)]

    def h_default(self, I, site, nm, callee, args, st):
        return [(self.graph(()), st)] if "oxrdf::graph::Graph" in self.ty(site, callee, 0) else None

    def h_same(self, I, site, nm, callee, args, st):
        v = I.deref(args[0], st)
        m = re.sub(r"::<.*?>", "", nm).rsplit("::", 1)[1]
        if m == "new_unchecked" and v[0] == "s" and "NamedNode" in nm:
            return [(iri(v[1]), st)]
        if m in ("as_str", "into_string") and name(v) is not None and isinstance(name(v), str):
            return [(("s", name(v)), st)]
        return [(v, st)] if m in ("into_owned", "as_ref", "to_owned") and name(v) is not None else None

    def h_show(self, I, site, nm, callee, args, st):
        v = I.deref(args[0], st)
        x = name(v)
        if x is None or v[0] != "a":
            return None
        if nm.endswith("to_owned"):
            return [(v, st)]
        if nm.endswith("to_string"):
            return [(("s", show_term(x)), st)]
        if nm.endswith("::fmt") and args[1][0] == "p":
            ns = st.fork()
            buf = I.deref(args[1], ns)
            if buf[0] == "s":
                I.write_cell(args[1][1], args[1][2], ("s", buf[1] + show_term(x)), ns)
                return [(Ok(UNIT), ns)]
        return None

    def as_term(self, v):
        x = name(v)
        return term(x) if x is not None and v[0] == "a" else None

    def as_iri(self, v):
        x = name(v)
        return iri(x) if isinstance(x, str) and not x.startswith("_:") and v[0] == "a" else None

    def ty(self, site, callee, i):
        try:
            cr, ix = callee[4][i]
            return self.prog.ty(cr, ix)["s"]
        except (IndexError, KeyError, TypeError):
            return ""

    def h_conv(self, I, site, nm, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] == "a" and v[1] == TRI:
            return [(Ok(v) if "try" in nm.rsplit("::", 1)[1] else v, st)]
        x = name(v)
        m = nm.rsplit("::", 1)[1]
        want = self.ty(site, callee, 0 if m.endswith("from") else 1)
        if v[0] == "L" and want.endswith("::PrefixMap"):
            r = I.sym("in", "prefixes")
            return [(Ok(r) if m.startswith("try") else r, st)]
        if x is None:
            return None
        w = re.sub(r"<.*>", "", want).rsplit("::", 1)[-1]
        if v[0] == "s" and w not in ("IRI", "NamedNode"):
            return None
        if v[0] != "s" and not (v[1].startswith("oxrdf") or v[1].endswith(("IriS",))):
            return None
        if w in ("NamedNode", "NamedNodeRef", "IRI"):
            r = iri(x) if isinstance(x, str) and not x.startswith("_:") else None
        elif w in ("NamedOrBlankNode", "NamedOrBlankNodeRef", "Subject"):
            r = term(x) if isinstance(x, str) else None
        elif w in ("BlankNode", "BNode", "BlankNodeRef"):
            r = term(x) if isinstance(x, str) and x.startswith("_:") else None
        elif w in ("Term", "TermRef"):
            r = term(x)
        elif w == "":
            r = term(x)
        else:
            return None
        if m.startswith("try"):
            return [(Ok(r) if r is not None else Err(I.sym("in", "conversion")), st)]
        return [(r, st)] if r is not None else None

    def h_triple(self, I, site, nm, callee, args, st):
        m = re.sub(r"::<.*?>", "", nm).rsplit("::", 1)[1]
        a = [I.deref(x, st) for x in args]
        if m == "new":
            s, p, o = self.as_term(a[0]), self.as_iri(a[1]), self.as_term(a[2])
            if None in (s, p, o):
                return None
            return [(("a", "QUAD", "", (s, p, o, a[3])) if "Quad" in nm else ("a", TRI, "", (s, p, o)), st)]
        if m in ("into_owned", "as_ref", "to_owned") and a[0][0] == "a":
            return [(a[0], st)]
        return None

    def h_graph(self, I, site, nm, callee, args, st):
        m = re.sub(r"::<.*?>", "", nm).rsplit("::", 1)[1]
        if m in ("new", "default"):
            return [(self.graph(()), st)]
        g = I.deref(args[0], st)
        if g[0] != "a" or g[1] != GRAPH or g[3][0][0] != "L":
            return None
        xs = g[3][0][1]
        a = [I.deref(x, st) for x in args[1:]]
        L = lambda ys: [(("it", ("L", tuple(ys))), st)]
        if m in ("iter", "into_iter"):
            return L(xs)
        if m == "len":
            return [(("i", len(xs)), st)]
        if m == "is_empty":
            return [(("b", not xs), st)]
        if m == "clone":
            return [(g, st)]
        if m in ("insert", "remove", "contains"):
            if spo(a[0]) is None:
                return None
            has = a[0] in xs
            if m == "contains":
                return [(("b", has), st)]
            ns = st.fork()
            new = xs + (a[0],) if m == "insert" and not has else tuple(x for x in xs if x != a[0]) if m == "remove" else xs
            if args[0][0] != "p":
                return None
            I.write_cell(args[0][1], args[0][2], ("a", GRAPH, "", (("L", new),)), ns)
            return [(("b", has if m == "remove" else not has), ns)]
        if m == "clear" and args[0][0] == "p":
            ns = st.fork()
            I.write_cell(args[0][1], args[0][2], self.graph(()), ns)
            return [(UNIT, ns)]
        n = [name(x) for x in a]
        if None in n or not n:
            return None
        pos = {"triples_for_subject": (0,), "triples_for_predicate": (1,), "triples_for_object": (2,), "objects_for_subject_predicate": (0, 1), "subjects_for_predicate_object": (1, 2),
               "predicates_for_subject_object": (0, 2), "object_for_subject_predicate": (0, 1), "subject_for_predicate_object": (1, 2)}.get(m)
        if pos is None or len(pos) != len(n):
            return None
        hit = [x for x in xs if all(spo(x)[i] == k for i, k in zip(pos, n))]
        if m.startswith("triples_for"):
            return L(hit)
        i = ({0, 1, 2} - set(pos)).pop()
        if m.split("_")[0] in ("object", "subject"):
            return [(Some(hit[0][3][i]) if hit else NONE, st)]
        return L(x[3][i] for x in hit)
