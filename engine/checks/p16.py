"""P16: a SHACL shapes graph is compiled to exactly the shapes and constraints it declares."""
import itertools, re
from vf import petgraph
from vf.absint import T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *
from vf.rdfmock import Mock, run_parser, RDFNS

TITLE = "SHACL shapes graphs compile to what they declare"
SH = "http://www.w3.org/ns/shacl#"
RDFS = "http://www.w3.org/2000/01/rdf-schema#"
OWL = "http://www.w3.org/2002/07/owl#"
TYPE = RDFNS + "type"


def canon(P, v, I=None, unwrap=("Iri", "IriS", "NamedNode", "Lang")):
    """a value as text: variants with named fields show them by name, newtypes around a name show the name"""
    k = v[0]
    if k == "a":
        a = P.adts.get(v[1])
        names = None
        for var in (a["v"] if a else []):
            if var["n"] == v[2] or len(a["v"]) == 1:
                names = [f[0] for f in var["f"]]
        cs = [canon(P, x, I) for x in v[3]]
        if len(cs) == 1 and v[2] in unwrap:
            return cs[0]
        if names and len(names) == len(cs) and names[0] != "0":
            return v[2] + "{" + ",".join("%s=%s" % t for t in sorted(zip(names, cs)) if t[0] != "_marker") + "}"
        if v[2] == "PhantomData":
            return "-"
        return v[2] + ("(" + ",".join(cs) + ")" if cs else "")
    if k in ("s", "i", "b"):
        return str(v[1])
    if k == "L":
        return "[" + ",".join(canon(P, x, I) for x in v[1]) + "]"
    if k == "t":
        return "<" + ",".join(canon(P, x, I) for x in v[1]) + ">"
    if k == "y" and I is not None and I.tag(v)[0] == "in":
        return str(I.tag(v)[1])
    return "?" + k


def lst(head, items):
    """triples of an RDF list"""
    out, cur = [], head
    for i, x in enumerate(items):
        nx = "%s.%d" % (head, i + 1) if i + 1 < len(items) else RDFNS + "nil"
        out += [(cur, RDFNS + "first", x), (cur, RDFNS + "rest", nx)]
        cur = nx
    return out


def H_LANG(I, s, n, cc, a, st):
    return [(Ok(I.deref(a[0], st)), st)]


def H_REGEX(I, s, n, cc, a, st):
    return [(Ok(I.sym("in", "REGEX %s %s" % (canon(I.prog, I.deref(a[0], st), I), canon(I.prog, I.deref(a[1], st), I)))), st)]


def interp(P, mock, more=()):
    return new_interp(P, list(more) + [(r"(^|::)Lang::new$", H_LANG), (r"RDFRegex::new$", H_REGEX)] + mock.handlers(), seq_cap=64)


def parser_fn(P, name):
    c = [f for f in P.fns.values() if f.kind in ("fn", "method") and f.id.startswith("shacl::rdf::") and f.id.rsplit("::", 1)[1] == name]
    return c


def parser_value(P, I, f):
    outs = I.exec_fn(f, (), (), {}, (), ())
    return outs[0][0] if len(outs) == 1 else None


BN, L1 = "_:x", "_:l"
LONG = ("min_count", "max_count")


def component_cases():
    """property of the shapes graph, triples about S, expected components (or "error")"""
    S = "S"
    out = []

    def case(key, triples, want):
        out.append((key, triples, want))
    nodes = {"iri": "v1", "bnode": "_:b1", "literal": ("str", "t1")}
    show = {"iri": "v1", "bnode": "BlankNode(b1)", "literal": "Literal(StringLiteral{lang=None,lexical_form=t1})"}
    case("none", [], [])
    for p, V in (("class", "Class"), ("node", "Node"), ("not", "Not")):
        for k in ("iri", "bnode"):
            case("%s/%s" % (p, k), [(S, SH + p, nodes[k])], ["%s(%s)" % (V, show[k])])
        case("%s/two" % p, [(S, SH + p, "v1"), (S, SH + p, "v2")], ["%s(v1)" % V, "%s(v2)" % V])
    for p, V in (("datatype", "Datatype"), ("equals", "Equals"), ("disjoint", "Disjoint"), ("lessThan", "LessThan"), ("lessThanOrEquals", "LessThanOrEquals")):
        case("%s/iri" % p, [(S, SH + p, "v1")], ["%s(v1)" % V])
        case("%s/bnode" % p, [(S, SH + p, "_:b1")], "error")
        case("%s/literal" % p, [(S, SH + p, ("str", "t1"))], "error")
        case("%s/two" % p, [(S, SH + p, "v1"), (S, SH + p, "v2")], ["%s(v1)" % V, "%s(v2)" % V])
    for x, V in (("IRI", "Iri"), ("BlankNode", "BNode"), ("Literal", "Lit"), ("BlankNodeOrIRI", "BNodeOrIri"), ("BlankNodeOrLiteral", "BNodeOrLit"), ("IRIOrLiteral", "IriOrLit")):
        case("nodeKind/%s" % x, [(S, SH + "nodeKind", SH + x)], ["NodeKind(%s)" % V])
    case("nodeKind/other", [(S, SH + "nodeKind", SH + "Other")], "error")
    case("nodeKind/literal", [(S, SH + "nodeKind", ("str", "t1"))], "error")
    for p, V in (("minCount", "MinCount"), ("maxCount", "MaxCount"), ("minLength", "MinLength"), ("maxLength", "MaxLength")):
        for n in (0, 1, 7):
            case("%s/%d" % (p, n), [(S, SH + p, ("int", n))], ["%s(%d)" % (V, n)])
        case("%s/text" % p, [(S, SH + p, ("str", "t1"))], "error")
        case("%s/iri" % p, [(S, SH + p, "v1")], "error")
    for p in ("minInclusive", "minExclusive", "maxInclusive", "maxExclusive"):
        V = p[0].upper() + p[1:]
        case("%s/literal" % p, [(S, SH + p, ("int", 3))], ["%s(NumericLiteral(Integer(3)))" % V])
        case("%s/opaque" % p, [(S, SH + p, ("lit", "q"))], ["%s(DatatypeLiteral{datatype=dt,lexical_form=q})" % V])
        case("%s/iri" % p, [(S, SH + p, "v1")], "error")
    case("pattern", [(S, SH + "pattern", ("str", "re"))], ["Pattern{flags=None,pattern=re}"])
    case("pattern/flags", [(S, SH + "pattern", ("str", "re")), (S, SH + "flags", ("str", "fl"))], ["Pattern{flags=Some(fl),pattern=re}"])
    case("flags", [(S, SH + "flags", ("str", "fl"))], [])
    case("pattern/iri", [(S, SH + "pattern", "v1")], "error")
    for p, V in (("languageIn", "LanguageIn"),):
        for n in range(0, 3):
            ls = ["l%d" % i for i in range(n)]
            head = L1 if n else RDFNS + "nil"
            case("%s/%d" % (p, n), [(S, SH + p, head)] + lst(L1, [("str", x) for x in ls]), ["%s([%s])" % (V, ",".join(ls))])
    for p, V in (("uniqueLang", "UniqueLang"), ("deactivated", "Deactivated")):
        for b in (True, False):
            case("%s/%s" % (p, b), [(S, SH + p, ("bool", b))], ["%s(%s)" % (V, b)])
    for p, V in (("and", "And"), ("or", "Or"), ("xone", "Xone")):
        for items in ([], ["v1"], ["v1", "_:b2"], ["v1", "v2", "v3"], ["v1", "v1"]):
            sh = [x if not x.startswith("_:") else "BlankNode(%s)" % x[2:] for x in items]
            case("%s/%d/%s" % (p, len(items), "".join(x[-1] for x in items)), [(S, SH + p, L1 if items else RDFNS + "nil")] + lst(L1, items), ["%s([%s])" % (V, ",".join(sh))])
        case("%s/two lists" % p, [(S, SH + p, "_:k"), (S, SH + p, L1)] + lst("_:k", ["v1"]) + lst(L1, ["v2", "v3"]), ["%s([v1])" % V, "%s([v2,v3])" % V])
        case("%s/no list" % p, [(S, SH + p, "_:k")], "error")
        case("%s/unterminated" % p, [(S, SH + p, "_:k"), ("_:k", RDFNS + "first", "v1")], "error")
    for b in (True, False):
        case("closed/%s" % b, [(S, SH + "closed", ("bool", b))], ["Closed{ignored_properties=[],is_closed=%s}" % b])
        case("closed/%s/ignored" % b, [(S, SH + "closed", ("bool", b)), (S, SH + "ignoredProperties", L1)] + lst(L1, ["v1", "v2"]), ["Closed{ignored_properties=[v1,v2],is_closed=%s}" % b])
    case("closed/ignored literal", [(S, SH + "closed", ("bool", True)), (S, SH + "ignoredProperties", L1)] + lst(L1, ["v1", ("str", "t1")]), "error")
    case("ignored", [(S, SH + "ignoredProperties", L1)] + lst(L1, ["v1"]), [])
    val = {"iri": "Iri(v1)".replace("Iri(v1)", "v1"), "literal": show["literal"]}
    for k in ("iri", "literal"):
        case("hasValue/%s" % k, [(S, SH + "hasValue", nodes[k])], ["HasValue(%s)" % val[k]])
        for n in (1, 2):
            case("in/%s/%d" % (k, n), [(S, SH + "in", L1)] + lst(L1, [nodes[k]] + ["v9"] * (n - 1)), ["In([%s])" % ",".join([val[k]] + ["v9"] * (n - 1))])
    case("hasValue/two", [(S, SH + "hasValue", "v1"), (S, SH + "hasValue", "v2")], ["HasValue(v1)", "HasValue(v2)"])
    case("hasValue/bnode", [(S, SH + "hasValue", "_:b1")], "error")
    case("in/bnode", [(S, SH + "in", L1)] + lst(L1, ["v1", "_:b1"]), "error")
    case("in/empty", [(S, SH + "in", RDFNS + "nil")], ["In([])"])

    def qvs(sh, mn, mx, d, sib):
        return "QualifiedValueShape{disjoint=%s,q_max_count=%s,q_min_count=%s,shape=%s,siblings=[%s]}" % (d, mx, mn, sh, ",".join(sib))
    for mn, mx, d in itertools.product((None, 0, 2), (None, 0, 2), (None, True, False)):
        tr = [(S, SH + "qualifiedValueShape", "Q")]
        tr += [(S, SH + "qualifiedMinCount", ("int", mn))] if mn is not None else []
        tr += [(S, SH + "qualifiedMaxCount", ("int", mx))] if mx is not None else []
        tr += [(S, SH + "qualifiedValueShapesDisjoint", ("bool", d))] if d is not None else []
        o = lambda x: "None" if x is None else "Some(%s)" % x
        case("qualified/%s/%s/%s" % (mn, mx, d), tr, [qvs("Q", o(mn), o(mx), o(d), [])])
        if mn is None or mx is not None:
            continue
        # siblings: the other qualified value shapes of the parents
        tr2 = tr + [("N", SH + "property", S), ("N", SH + "property", "P2"), ("N", SH + "property", "P3"), ("N", SH + "property", "P4"), ("P2", SH + "qualifiedValueShape", "Q2"),
                    ("P3", SH + "qualifiedValueShape", "Q"), ("M", SH + "property", "P5"), ("P5", SH + "qualifiedValueShape", "Q5")]
        case("qualified/siblings/%s/%s" % (mn, d), tr2, [qvs("Q", o(mn), o(mx), o(d), ["Q2"] if d else [])])
        tr3 = tr2 + [("M", SH + "property", S)]
        case("qualified/siblings of two parents/%s/%s" % (mn, d), tr3, [qvs("Q", o(mn), o(mx), o(d), ["Q2", "Q5"] if d else [])])
    many = ["v%d" % i for i in range(6)]
    for p, V in (("and", "And"), ("or", "Or"), ("xone", "Xone"), ("in", "In")):
        case("%s/six" % p, [(S, SH + p, L1)] + lst(L1, many), ["%s([%s])" % (V, ",".join(many))])
    case("languageIn/six", [(S, SH + "languageIn", L1)] + lst(L1, [("str", x) for x in many]), ["LanguageIn([%s])" % ",".join(many)])
    case("closed/six ignored", [(S, SH + "closed", ("bool", True)), (S, SH + "ignoredProperties", L1)] + lst(L1, many), ["Closed{ignored_properties=[%s],is_closed=True}" % ",".join(many)])
    for p, V in (("class", "Class"), ("equals", "Equals"), ("hasValue", "HasValue"), ("node", "Node")):
        case("%s/six" % p, [(S, SH + p, x) for x in many], ["%s(%s)" % (V, x) for x in many])
    case("qualified/count without shape", [(S, SH + "qualifiedMinCount", ("int", 1))], [])

    def sp(sel, d, msg, pm):
        return "BasicSparql{deactivated=%s,message=%s,prefixes=%s,select=%s}" % (d, msg, pm, sel)
    case("sparql", [(S, SH + "sparql", "_:q"), ("_:q", SH + "select", ("str", "sel"))], [sp("sel", "None", "None", "None")])
    for b in (True, False):
        case("sparql/deactivated %s" % b, [(S, SH + "sparql", "_:q"), ("_:q", SH + "select", ("str", "sel")), ("_:q", SH + "deactivated", ("bool", b))], [sp("sel", "Some(%s)" % b, "None", "None")])
    case("sparql/no select", [(S, SH + "sparql", "_:q")], "error")
    case("sparql/two", [(S, SH + "sparql", "_:q"), ("_:q", SH + "select", ("str", "sel")), (S, SH + "sparql", "_:r"), ("_:r", SH + "select", ("str", "sel2"))], [sp("sel", "None", "None", "None"), sp("sel2", "None", "None", "None")])
    # a parameter of another subject is none of S
    case("other subject", [("S2", SH + "minCount", ("int", 1)), ("S2", SH + "class", "v1"), ("S2", SH + "closed", ("bool", True))], [])
    case("mixed", [(S, SH + "class", "v1"), (S, SH + "datatype", "v2"), (S, SH + "nodeKind", SH + "IRI"), (S, SH + "minCount", ("int", 1)), (S, SH + "maxCount", ("int", 2)), (S, SH + "minLength", ("int", 3)),
                   (S, SH + "maxLength", ("int", 4)), (S, SH + "minInclusive", ("lit", "a")), (S, SH + "maxInclusive", ("lit", "b")), (S, SH + "minExclusive", ("lit", "c")), (S, SH + "maxExclusive", ("lit", "d")),
                   (S, SH + "equals", "e1"), (S, SH + "disjoint", "e2"), (S, SH + "lessThan", "e3"), (S, SH + "lessThanOrEquals", "e4"), (S, SH + "not", "n1"), (S, SH + "node", "n2"),
                   (S, SH + "hasValue", "h1"), (S, SH + "uniqueLang", ("bool", True)), (S, SH + "closed", ("bool", True))],
         ["Class(v1)", "Datatype(v2)", "NodeKind(Iri)", "MinCount(1)", "MaxCount(2)", "MinLength(3)", "MaxLength(4)", "MinInclusive(DatatypeLiteral{datatype=dt,lexical_form=a})", "MaxInclusive(DatatypeLiteral{datatype=dt,lexical_form=b})", "MinExclusive(DatatypeLiteral{datatype=dt,lexical_form=c})", "MaxExclusive(DatatypeLiteral{datatype=dt,lexical_form=d})",
          "Equals(e1)", "Disjoint(e2)", "LessThan(e3)", "LessThanOrEquals(e4)", "Not(n1)", "Node(n2)", "HasValue(h1)", "UniqueLang(True)", "Closed{ignored_properties=[],is_closed=True}"])
    return out


def results(P, outs, I=None):
    """set of texts of the outcomes; "error" for an error"""
    got = set()
    for o in outs:
        v = o[0]
        if v[0] == "a" and v[2] == "Err":
            got.add("error")
        elif v[0] == "a" and v[2] == "Ok" and v[3][0][0] == "L":
            got.add("|".join(sorted(canon(P, x, I) for x in v[3][0][1])))
        else:
            got.add("not exact")
    return got


def components(c, only="", floor=178):
    P = c.prog
    c.rule("component", "the components read for a shape are exactly those its property values declare, with those values as parameters; a value of the wrong kind is an error")
    fs = parser_fn(P, "components")
    if not c.anchor("component", "components", fs, "the parser of constraint components"):
        return
    f = fs[0]
    for key, triples, want in component_cases():
        if not re.search(only, key):
            continue
        m = Mock(P, triples)
        I = interp(P, m)
        par = parser_value(P, I, f)
        got = results(P, run_parser(I, P, par, m, "S"), I) if par else set()
        w = "error" if want == "error" else "|".join(sorted(want))
        c.ob("component", key, f.where(), got == {w}, "the triples %s give %s, not %s" % (" ".join(short(t) for t in triples), sorted(got)[:2], w))
    c.floor("component", floor, "component properties x kinds of values")


def short(t):
    s = lambda x: x.rsplit("#", 1)[-1] if isinstance(x, str) else str(x[1])
    return "(%s)" % " ".join(s(x) for x in t)


# ------------------------------------------------------------------ whole shapes graphs
PARSE = "ShaclParser::<RDF>::parse"
SHAPE_ACC = ("path", "targets", "components", "property_shapes", "deactivated", "severity", "closed", "allowed_properties", "message", "name", "description", "reifier_info")
COMP_ACC = {"Class": "class_rule", "Datatype": "datatype", "NodeKind": "node_kind", "MinCount": "min_count", "MaxCount": "max_count", "MinExclusive": "min_exclusive",
            "MaxExclusive": "max_exclusive", "MinInclusive": "min_inclusive", "MaxInclusive": "max_inclusive", "MinLength": "min_length", "MaxLength": "max_length",
            "Pattern": "pattern flags regex", "UniqueLang": "unique_lang", "LanguageIn": "langs", "Equals": "iri", "Disjoint": "iri", "LessThan": "iri", "LessThanOrEquals": "iri",
            "Or": "shapes", "And": "shapes", "Not": "shape", "Xone": "shapes", "Node": "shape", "HasValue": "value", "In": "values",
            "QualifiedValueShape": "shape qualified_min_count qualified_max_count qualified_value_shapes_disjoint siblings", "Closed": "is_closed ignored_properties",
            "Deactivated": "is_deactivated", "BasicSparql": "select message deactivated prefixes"}


class Unread(Exception):
    pass


class View:
    """the observable content of a compiled schema, read through its accessors"""

    def __init__(self, P, I, schema, labels):
        self.P, self.I, self.schema = P, I, schema
        self.meth = {}
        for f in P.fns.values():
            if f.kind == "method" and f.id.startswith("shacl::ir::") and len(f.id.rsplit("::", 2)) == 3:
                self.meth.setdefault(f.id.rsplit("::", 1)[1], []).append(f)
        self.idx = {}
        for l in labels:
            v = self.call(schema, "get_idx", [l])
            if v[2] == "Some":
                self.idx[v[3][0]] = l

    def call(self, v, name, args=()):
        fs = [f for f in self.meth.get(name, ()) if f.id == v[1] + "::" + name]
        if len(fs) != 1:
            raise Unread("%s::%s" % (v[1], name))
        r = {o[0] for o in self.I.exec_fn(fs[0], (v,) + tuple(args), (), {}, (), ())}
        if len(r) != 1:
            raise Unread("%s::%s not exact" % (v[1], name))
        return r.pop()

    def text(self, v):
        if v[0] == "p" or v[0] == "T":
            raise Unread("opaque value")
        if v in self.idx:
            return canon(self.P, self.idx[v], self.I)
        if v[0] == "it":
            v = v[1]
        if v[0] == "L":
            return "[" + ",".join(self.text(x) for x in v[1]) + "]"
        if v[0] == "a" and v[2] in ("Some", "None", "Ok"):
            return v[2] + ("(" + self.text(v[3][0]) + ")" if v[3] else "")
        return canon(self.P, v, self.I)

    def comp(self, v):
        k = v[2]
        if k not in COMP_ACC:
            raise Unread("component " + str(k))
        x = v[3][0]
        return k + "(" + ";".join(self.text(self.call(x, m)) for m in COMP_ACC[k].split()) + ")"

    def shape(self, label):
        s = self.call(self.schema, "get_shape", [label])
        if s[2] == "None":
            return None
        s = s[3][0]
        out = {"kind": s[2]}
        for a in SHAPE_ACC:
            v = self.call(s, a)
            if a == "components":
                out[a] = "|".join(sorted(self.comp(x) for x in v[1]))
            elif a == "reifier_info" and v[2] == "Some":
                r = v[3][0]
                out[a] = ";".join(self.text(self.call(r, m)) for m in ("reification_required", "reifier_shape", "predicate"))
            elif a in ("targets", "property_shapes", "allowed_properties"):
                if v[0] == "it":
                    v = v[1]
                if v[0] != "L":
                    raise Unread(a)
                out[a] = "|".join(sorted(self.text(x) for x in v[1]))
            elif a in ("message", "name", "description") and v[2] == "Some":
                m = v[3][0]
                ms = [x for x in m[3] if x[0] == "L"]
                out[a] = "|".join(sorted(self.text(x) for x in ms[0][1])) if ms else self.text(v)
            else:
                out[a] = self.text(v)
        return out


def nodes_of(m):
    out = []
    for s, p, o in m.triples:
        for x in (s, o):
            if m.kind(x) in ("Iri", "BlankNode") and x not in out:
                out.append(x)
    return out


def compiled(P, triples):
    """-> ("error", stage) | ("ok", {shape text: {accessor: text}}, levels) | ("not exact", why)"""
    m = Mock(P, triples)
    I = interp(P, m, petgraph.handlers())
    new = [f for f in P.fns.values() if f.id.endswith("ShaclParser::<RDF>::new")]
    par = [f for f in P.fns.values() if f.id.endswith(PARSE)]
    comp = [f for f in P.fns.values() if f.id.endswith("::IRSchema::compile")]
    lev = [f for f in P.fns.values() if f.id.endswith("::IRSchema::shapes_with_targets_by_level")]
    if not (len(new) == len(par) == len(comp) == 1):
        return ("not exact", "no anchor")
    try:
        sp = build(I, P, new[0].id, [I.sym("in", "STORE")])
        outs = I.exec_fn(par[0], (("p", -1, ()),), (sp,), {}, (), ())
        rets = {o[0] for o in outs}
        if {r[2] for r in rets} == {"Err"}:
            return ("error", "parse")
        if len(rets) != 1:
            return ("not exact", "parse: %d outcomes" % len(rets))
        ast = rets.pop()[3][0]
        rets = {o[0] for o in I.exec_fn(comp[0], (ast,), (), {}, (), ())}
        if {r[2] for r in rets} == {"Err"}:
            return ("error", "compile")
        if len(rets) != 1:
            return ("not exact", "compile: %d outcomes" % len(rets))
        schema = rets.pop()[3][0]
        nodes = nodes_of(m)
        vw = View(P, I, schema, nodes)
        shapes = {}
        for n in nodes:
            s = vw.shape(n)
            if s is not None:
                shapes[canon(P, n, I)] = s
        levels = None
        if lev:
            r = {o[0] for o in I.exec_fn(lev[0], (schema,), (), {}, (), ())}
            levels = [[vw.text(x) for x in l[1]] for l in r.pop()[1]] if len(r) == 1 else "not exact"
        return ("ok", shapes, levels)
    except (Unread, Budget, IndexError, TypeError) as e:
        return ("not exact", "%s: %s" % (type(e).__name__, e))


def DEF(kind, **kw):
    d = {"kind": kind, "targets": "", "components": "", "property_shapes": "", "deactivated": "False", "severity": "Violation", "closed": "False", "allowed_properties": "",
         "message": "None", "name": "None", "description": "None", "reifier_info": "None", "path": "None"}
    d.update(kw)
    return d


def NSH(**kw):
    return DEF("NodeShape", **kw)


def PSH(path="pp", **kw):
    return DEF("PropertyShape", path="Some(%s)" % (("Predicate{pred=%s}" % path) if path.isalnum() else path), **kw)


def graph_cases():
    """key, triples, expected shapes (or "error")"""
    out = []
    case = lambda k, t, w: out.append((k, t, w))
    N, Pp = "N", ("P", SH + "path", "pp")
    # ---- which nodes are shapes
    for t in ("NodeShape", "Shape"):
        case("candidate/type %s" % t, [(N, TYPE, SH + t), ("X", TYPE, "Other")], {N: NSH()})
    case("candidate/type PropertyShape", [("P", TYPE, SH + "PropertyShape"), Pp], {"P": PSH()})
    case("candidate/untyped", [(N, SH + "message", ("str", "m"))], {})
    for p, T_ in (("targetClass", "Class"), ("targetNode", "Node"), ("targetSubjectsOf", "SubjectsOf"), ("targetObjectsOf", "ObjectsOf")):
        case("candidate/%s" % p, [(N, SH + p, "C")], {N: NSH(targets="%s(C)" % T_)})
        case("candidate/%s/bnode" % p, [("_:n", SH + p, "C"), ("_:n", SH + p, "D")], {"BlankNode(n)": NSH(targets="%s(C)|%s(D)" % (T_, T_))})
        case("candidate/%s/property shape" % p, [("P", SH + p, "C"), Pp], {"P": PSH(targets="%s(C)" % T_)})
    case("target/literal node", [(N, SH + "targetNode", ("str", "t1"))], {N: NSH(targets="Node(Literal(StringLiteral{lang=None,lexical_form=t1}))")})
    case("target/blank node", [(N, SH + "targetNode", "_:t")], {N: NSH(targets="Node(BlankNode(t))")})
    for p, V in (("node", "Node"), ("not", "Not")):
        for x, s in (("M", "M"), ("_:m", "BlankNode(m)")):
            case("candidate/value of %s/%s" % (p, s), [(N, TYPE, SH + "NodeShape"), (N, SH + p, x), (x, SH + "minLength", ("int", 2))],
                 {N: NSH(components="%s(%s)" % (V, s)), s: NSH(components="MinLength(2)")})
    case("candidate/value of property", [(N, TYPE, SH + "NodeShape"), (N, SH + "property", "P"), Pp, ("P", SH + "minCount", ("int", 2))],
         {N: NSH(property_shapes="P"), "P": PSH(components="MinCount(2)")})
    case("candidate/value of property/two", [(N, TYPE, SH + "NodeShape"), (N, SH + "property", "P"), (N, SH + "property", "_:q"), Pp, ("_:q", SH + "path", "qq")],
         {N: NSH(property_shapes="BlankNode(q)|P"), "P": PSH(), "BlankNode(q)": PSH("qq")})
    case("candidate/nested property", [("P", TYPE, SH + "PropertyShape"), Pp, ("P", SH + "property", "Q"), ("Q", SH + "path", "qq")], {"P": PSH(property_shapes="Q"), "Q": PSH("qq")})
    case("candidate/value of property/six", [(N, TYPE, SH + "NodeShape")] + [(N, SH + "property", "P%d" % i) for i in range(6)] + [("P%d" % i, SH + "path", "q%d" % i) for i in range(6)],
         dict({"P%d" % i: PSH("q%d" % i) for i in range(6)}, N=NSH(property_shapes="|".join("P%d" % i for i in range(6)))))
    case("target/six", [(N, SH + "targetNode", "t%d" % i) for i in range(6)] + [(N, SH + "targetClass", "c%d" % i) for i in range(6)], {N: NSH(targets="|".join(["Class(c%d)" % i for i in range(6)] + ["Node(t%d)" % i for i in range(6)]))})
    case("candidate/property without path", [(N, TYPE, SH + "NodeShape"), (N, SH + "property", "M")], {N: NSH(property_shapes="M"), "M": NSH()})
    case("candidate/qualified", [("P", TYPE, SH + "PropertyShape"), Pp, ("P", SH + "qualifiedValueShape", "Q"), ("P", SH + "qualifiedMinCount", ("int", 1))],
         {"P": PSH(components="QualifiedValueShape(Q;Some(1);None;None;[])"), "Q": NSH()})
    case("qualified/siblings", [(N, SH + "property", "P"), (N, SH + "property", "P2"), Pp, ("P2", SH + "path", "pp"), ("P", SH + "qualifiedValueShape", "Q"), ("P2", SH + "qualifiedValueShape", "Q2"),
                                ("P", SH + "qualifiedMaxCount", ("int", 3)), ("P", SH + "qualifiedValueShapesDisjoint", ("bool", True)), (N, TYPE, SH + "NodeShape")],
         {N: NSH(property_shapes="P|P2"), "P": PSH(components="QualifiedValueShape(Q;None;Some(3);Some(True);[Q2])"), "P2": PSH(components="QualifiedValueShape(Q2;None;None;None;[])"), "Q": NSH(), "Q2": NSH()})
    for p, V in (("and", "And"), ("or", "Or"), ("xone", "Xone")):
        case("candidate/members of %s" % p, [(N, TYPE, SH + "NodeShape"), (N, SH + p, "_:l")] + lst("_:l", ["M", "_:m", "M2"]) + [("M", SH + "minLength", ("int", 1)), ("_:m", SH + "minLength", ("int", 2))],
             {N: NSH(components="%s([M,BlankNode(m),M2])" % V), "M": NSH(components="MinLength(1)"), "BlankNode(m)": NSH(components="MinLength(2)"), "M2": NSH()})
        six = ["M%d" % i for i in range(6)]
        case("candidate/members of %s/six" % p, [(N, TYPE, SH + "NodeShape"), (N, SH + p, "_:l")] + lst("_:l", six), dict({x: NSH() for x in six}, N=NSH(components="%s([%s])" % (V, ",".join(six)))))
        case("candidate/members of %s/two shapes" % p, [("N1", TYPE, SH + "NodeShape"), ("N1", SH + p, "_:l"), ("N2", TYPE, SH + "NodeShape"), ("N2", SH + p, "_:k")] + lst("_:l", ["M1"]) + lst("_:k", ["M1", "M2"]),
             {"N1": NSH(components="%s([M1])" % V), "N2": NSH(components="%s([M1,M2])" % V), "M1": NSH(), "M2": NSH()})
        case("candidate/members of %s/literal" % p, [(N, TYPE, SH + "NodeShape"), (N, SH + p, "_:l")] + lst("_:l", [("str", "t1")]), "error")
    for r in (None, True, False):
        tr = [("P", TYPE, SH + "PropertyShape"), Pp, ("P", SH + "reifierShape", "R"), ("R", SH + "minLength", ("int", 1))]
        tr += [("P", SH + "reificationRequired", ("bool", r))] if r is not None else []
        case("candidate/reifier/%s" % r, tr, {"P": PSH(reifier_info="%s;[R];pp" % bool(r)), "R": NSH(components="MinLength(1)")})
    case("reifier/complex path", [("P", TYPE, SH + "PropertyShape"), ("P", SH + "path", "_:i"), ("_:i", SH + "inversePath", "pp"), ("P", SH + "reifierShape", "R")], "error")
    # ---- implicit class targets
    for cls in (RDFS + "Class",):
        case("implicit/node shape", [("N", TYPE, SH + "NodeShape"), ("N", TYPE, cls)], {N: NSH(targets="ImplicitClass(N)")})
        case("implicit/property shape", [("P", TYPE, SH + "PropertyShape"), ("P", TYPE, cls), Pp], {"P": PSH(targets="ImplicitClass(P)")})
        case("implicit/untyped shape", [("N", SH + "targetClass", "C"), ("N", TYPE, cls)], {N: NSH(targets="Class(C)")})
        case("implicit/another class", [("N", TYPE, SH + "NodeShape"), ("C", TYPE, cls)], {N: NSH()})
        case("implicit/two", [("N", TYPE, SH + "NodeShape"), ("N", TYPE, cls), ("M", TYPE, SH + "NodeShape"), ("M", TYPE, cls), ("K", TYPE, SH + "NodeShape")],
             {N: NSH(targets="ImplicitClass(N)"), "M": NSH(targets="ImplicitClass(M)"), "K": NSH()})
    # ---- attributes
    for sv, t in (("Violation", "Violation"), ("Warning", "Warning"), ("Info", "Info"), ("Debug", "Debug"), ("Trace", "Trace")):
        case("severity/%s" % sv, [(N, TYPE, SH + "NodeShape"), (N, SH + "severity", SH + sv)], {N: NSH(severity=t)})
        case("severity/%s/property" % sv, [("P", TYPE, SH + "PropertyShape"), Pp, ("P", SH + "severity", SH + sv)], {"P": PSH(severity=t)})
    case("severity/other", [(N, TYPE, SH + "NodeShape"), (N, SH + "severity", "sevx")], {N: NSH(severity="Generic(sevx)")})
    case("severity/other shape's", [(N, TYPE, SH + "NodeShape"), ("M", TYPE, SH + "NodeShape"), (N, SH + "severity", SH + "Info")], {N: NSH(severity="Info"), "M": NSH()})
    for b in (True, False):
        case("deactivated/%s" % b, [(N, TYPE, SH + "NodeShape"), (N, SH + "deactivated", ("bool", b))], {N: NSH(deactivated=str(b), components="Deactivated(%s)" % b)})
        case("deactivated/%s/property" % b, [("P", TYPE, SH + "PropertyShape"), Pp, ("P", SH + "deactivated", ("bool", b))], {"P": PSH(deactivated=str(b), components="Deactivated(%s)" % b)})
    for a, node in (("message", True), ("name", False), ("description", False)):
        for kind in (["NodeShape"] if node else []) + ["PropertyShape"]:
            base = [("P", TYPE, SH + kind)] + ([Pp] if kind[0] == "P" else [])
            mk = NSH if kind[0] == "N" else PSH
            case("%s/%s" % (a, kind), base + [("P", SH + a, ("str", "m1"))], {"P": mk(**{a: "<None,m1>"})})
            case("%s/%s/lang" % (a, kind), base + [("P", SH + a, ("lang", "m1", "en")), ("P", SH + a, ("lang", "m2", "fr")), ("P", SH + a, ("str", "m3"))],
                 {"P": mk(**{a: "<None,m3>|<Some(en),m1>|<Some(fr),m2>"})})
    # ---- closed shapes
    PS = [(N, TYPE, SH + "NodeShape"), (N, SH + "property", "P"), Pp, (N, SH + "property", "Q"), ("Q", SH + "path", "qq"), (N, SH + "property", "R"), ("R", SH + "path", "_:i"), ("_:i", SH + "inversePath", "rr"),
          ("K", TYPE, SH + "NodeShape"), ("K", SH + "property", "S"), ("S", SH + "path", "ss")]
    rest = {"P": PSH(), "Q": PSH("qq"), "R": PSH("Inverse{path=Predicate{pred=rr}}"), "S": PSH("ss"), "K": NSH(property_shapes="S")}
    for ig in (None, [], ["ii"], ["ii", "pp"]):
        for b in (True, False):
            tr = PS + [(N, SH + "closed", ("bool", b))] + ([(N, SH + "ignoredProperties", "_:l" if ig else RDFNS + "nil")] + lst("_:l", ig) if ig is not None else [])
            al = "|".join(sorted({"pp", "qq"} | set(ig or []))) if b else ""
            case("closed/%s/%s" % (b, ig), tr, dict(rest, N=NSH(property_shapes="P|Q|R", closed=str(b), allowed_properties=al, components="Closed(%s;[%s])" % (b, ",".join(ig or [])))))
    case("closed/no properties", [(N, TYPE, SH + "NodeShape"), (N, SH + "closed", ("bool", True))], {N: NSH(closed="True", components="Closed(True;[])")})
    case("ignored/not closed", [(N, TYPE, SH + "NodeShape"), (N, SH + "ignoredProperties", "_:l")] + lst("_:l", ["ii"]), {N: NSH()})
    # ---- property paths
    pred = lambda x: "Predicate{pred=%s}" % x
    B = "_:x"
    pc = [("inverse", [(B, SH + "inversePath", "aa")], "Inverse{path=%s}" % pred("aa")), ("zeroOrMore", [(B, SH + "zeroOrMorePath", "aa")], "ZeroOrMore{path=%s}" % pred("aa")),
          ("oneOrMore", [(B, SH + "oneOrMorePath", "aa")], "OneOrMore{path=%s}" % pred("aa")), ("zeroOrOne", [(B, SH + "zeroOrOnePath", "aa")], "ZeroOrOne{path=%s}" % pred("aa")),
          ("alternative", [(B, SH + "alternativePath", "_:l")] + lst("_:l", ["aa", "bb", "cc"]), "Alternative{paths=[%s,%s,%s]}" % tuple(map(pred, ("aa", "bb", "cc")))),
          ("sequence", lst(B, ["aa", "bb", "cc"]), "Sequence{paths=[%s,%s,%s]}" % tuple(map(pred, ("aa", "bb", "cc")))),
          ("inverse of star", [(B, SH + "inversePath", "_:y"), ("_:y", SH + "zeroOrMorePath", "aa")], "Inverse{path=ZeroOrMore{path=%s}}" % pred("aa")),
          ("sequence of inverse", lst(B, ["aa", "_:y"]) + [("_:y", SH + "inversePath", "bb")], "Sequence{paths=[%s,Inverse{path=%s}]}" % (pred("aa"), pred("bb"))),
          ("alternative of sequence", [(B, SH + "alternativePath", "_:l")] + lst("_:l", ["aa", "_:y"]) + lst("_:y", ["bb", "cc"]), "Alternative{paths=[%s,Sequence{paths=[%s,%s]}]}" % tuple(map(pred, ("aa", "bb", "cc")))),
          ("star of alternative", [(B, SH + "zeroOrMorePath", "_:y"), ("_:y", SH + "alternativePath", "_:l")] + lst("_:l", ["aa", "bb"]), "ZeroOrMore{path=Alternative{paths=[%s,%s]}}" % tuple(map(pred, ("aa", "bb"))))]
    for k, t, w in pc:
        case("path/%s" % k, [("P", TYPE, SH + "PropertyShape"), ("P", SH + "path", B), ("P", SH + "maxCount", ("int", 2)), ("P", SH + "message", ("str", "m"))] + t, {"P": PSH(w, components="MaxCount(2)", message="<None,m>")})
    case("path/literal", [("P", TYPE, SH + "PropertyShape"), ("P", SH + "path", ("str", "t1"))], "error")
    case("path/unknown", [("P", TYPE, SH + "PropertyShape"), ("P", SH + "path", B), (B, SH + "otherPath", "aa")], "error")
    # ---- parameters survive compilation
    one = [("class", "v1", "Class(v1)"), ("datatype", "v1", "Datatype(v1)"), ("nodeKind", SH + "IRI", "NodeKind(Iri)"), ("nodeKind", SH + "BlankNodeOrLiteral", "NodeKind(BNodeOrLit)"),
           ("minCount", ("int", 3), "MinCount(3)"), ("maxCount", ("int", 3), "MaxCount(3)"), ("minLength", ("int", 3), "MinLength(3)"), ("maxLength", ("int", 3), "MaxLength(3)"),
           ("minExclusive", ("int", 3), "MinExclusive(NumericLiteral(Integer(3)))"), ("maxExclusive", ("int", 3), "MaxExclusive(NumericLiteral(Integer(3)))"),
           ("minInclusive", ("int", 3), "MinInclusive(NumericLiteral(Integer(3)))"), ("maxInclusive", ("int", 3), "MaxInclusive(NumericLiteral(Integer(3)))"),
           ("equals", "v1", "Equals(v1)"), ("disjoint", "v1", "Disjoint(v1)"), ("lessThan", "v1", "LessThan(v1)"), ("lessThanOrEquals", "v1", "LessThanOrEquals(v1)"),
           ("uniqueLang", ("bool", True), "UniqueLang(True)"), ("uniqueLang", ("bool", False), "UniqueLang(False)"), ("hasValue", "v1", "HasValue(v1)"),
           ("hasValue", ("str", "t1"), "HasValue(Literal(StringLiteral{lang=None,lexical_form=t1}))")]
    for p, v, w in one:
        case("parameter/%s/%s" % (p, w), [("P", TYPE, SH + "PropertyShape"), Pp, ("P", SH + p, v)], {"P": PSH(components=w)})
        case("parameter/%s/%s/node" % (p, w), [(N, TYPE, SH + "NodeShape"), (N, SH + p, v)], {N: NSH(components=w)})
    case("parameter/in", [(N, TYPE, SH + "NodeShape"), (N, SH + "in", "_:l")] + lst("_:l", ["v1", ("str", "t1"), "v2"]), {N: NSH(components="In([v1,Literal(StringLiteral{lang=None,lexical_form=t1}),v2])")})
    case("parameter/languageIn", [(N, TYPE, SH + "NodeShape"), (N, SH + "languageIn", "_:l")] + lst("_:l", [("str", "en"), ("str", "fr")]), {N: NSH(components="LanguageIn([en,fr])")})
    case("parameter/pattern", [(N, TYPE, SH + "NodeShape"), (N, SH + "pattern", ("str", "re"))], {N: NSH(components="Pattern(re;None;REGEX re None)")})
    case("parameter/pattern flags", [(N, TYPE, SH + "NodeShape"), (N, SH + "pattern", ("str", "re")), (N, SH + "flags", ("str", "fl"))], {N: NSH(components="Pattern(re;Some(fl);REGEX re Some(fl))")})
    case("parameter/sparql", [(N, TYPE, SH + "NodeShape"), (N, SH + "sparql", "_:q"), ("_:q", SH + "select", ("str", "sel")), ("_:q", SH + "deactivated", ("bool", True))], {N: NSH(components="BasicSparql(sel;None;Some(True);None)")})
    case("parameter/several", [("P", TYPE, SH + "PropertyShape"), Pp, ("P", SH + "minCount", ("int", 1)), ("P", SH + "maxCount", ("int", 1)), ("P", SH + "class", "c1"), ("P", SH + "class", "c2"), ("P", SH + "node", "M"), ("P", SH + "severity", SH + "Info")],
         {"P": PSH(components="Class(c1)|Class(c2)|MaxCount(1)|MinCount(1)|Node(M)", severity="Info"), "M": NSH()})
    return out


REFS = ("property", "node", "not", "and", "or", "xone", "qualifiedValueShape", "qualifiedMax", "reifierShape")


def ref(s, kind, o, tag=""):
    if kind == "qualifiedMax":
        return [(s, SH + "qualifiedValueShape", o), (s, SH + "qualifiedMaxCount", ("int", 1))]
    if kind == "qualifiedNone":
        return [(s, SH + "qualifiedValueShape", o)]
    if kind in ("and", "or", "xone"):
        h = "_:%s%s%s%s" % (kind, s, o, tag)
        return [(s, SH + kind, h)] + lst(h, [o])
    return [(s, SH + kind, o)] + ([(s, SH + "qualifiedMinCount", ("int", 1))] if kind == "qualifiedValueShape" else [])


def recursion_cases():
    """key, triples, recursive?, dependencies (shape, shape on which it depends)"""
    out = []
    path = lambda *xs: [(x, SH + "path", "pp") for x in xs]

    def case(key, edges, rec, targets=(), extra=()):
        names = sorted({e[0] for e in edges} | {e[2] for e in edges} | set(targets) | set(extra))
        tr = [(x, TYPE, SH + "PropertyShape") for x in names] + path(*names)
        tr += [(x, SH + "targetNode", "t" + x) for x in targets]
        for a, k, b in edges:
            tr += ref(a, k, b)
        out.append((key, tr, rec, [(a, b) for a, k, b in edges], tuple(targets)))
    for k in REFS:
        case("self/%s" % k, [("A", k, "A")], True)
        case("direct/%s" % k, [("A", k, "B"), ("B", "node", "A")], True)
        case("direct/not-%s" % k, [("A", "not", "B"), ("B", k, "A")], True)
        case("below/%s" % k, [("A", "node", "B"), ("B", k, "C"), ("C", "node", "B")], True)
        case("acyclic/%s" % k, [("A", k, "B")], False, ("A", "B"))
        case("acyclic shared/%s" % k, [("A", k, "B"), ("C", k, "B"), ("B", k, "D")], False, ("A", "B", "C", "D"))
        case("acyclic/%s/named against the order" % k, [("B", k, "A"), ("C", k, "B")], False, ("A", "B", "C"))
        case("acyclic/%s/untargeted" % k, [("A", k, "B"), ("B", k, "C")], False, ("A", "C"))
        case("acyclic/%s/only the first" % k, [("A", k, "B"), ("B", k, "C")], False, ("A",))
        case("acyclic/%s/only the middle" % k, [("A", k, "B"), ("B", k, "C")], False, ("B",), ("Z",))
    case("none", [], False, ("A", "B"))
    case("independent", [("A", "node", "B")], False, ("A", "B", "Z"))
    case("diamond", [("A", "node", "B"), ("A", "not", "C"), ("B", "property", "D"), ("C", "or", "D")], False, ("D", "C", "B", "A"))
    case("long chain", [("A", "node", "B"), ("B", "node", "C"), ("C", "node", "D")], False, ("A", "B", "C", "D"))
    case("long cycle", [("A", "node", "B"), ("B", "property", "C"), ("C", "and", "D"), ("D", "xone", "A")], True)
    case("chain with a shortcut", [("A", "node", "B"), ("A", "not", "C"), ("B", "property", "C")], False, ("A", "B", "C"))
    case("chain with a shortcut/named against the order", [("C", "node", "A"), ("C", "property", "B"), ("B", "node", "A")], False, ("A", "B", "C"))
    case("uneven diamond", [("A", "node", "B"), ("A", "node", "E"), ("E", "node", "F"), ("F", "node", "B"), ("B", "node", "D")], False, ("A", "B", "D", "E", "F"))
    case("wide", [("A", "property", x) for x in "BCDEF"] + [("B", "node", "F"), ("C", "node", "B")], False, tuple("ABCDEF"))
    case("cycle through the last of many", [("A", "property", x) for x in "BCDEF"] + [("F", "node", "A")], True)
    case("two references", [("A", "node", "B"), ("A", "not", "B")], False, ("A", "B"))
    return out


def _one(args):
    P, tr = args
    return compiled(P, tr)


def levels(c, rc=None, res=None):
    P = c.prog
    c.rule("levels", "the order of validation has every shape with a target exactly once, after the shapes it refers to")
    lev = [f for f in P.fns.values() if f.id.endswith("::IRSchema::shapes_with_targets_by_level")]
    if not c.anchor("levels", "levels", lev, "IRSchema::shapes_with_targets_by_level"):
        return
    if rc is None:
        rc = [r for r in recursion_cases() if not r[2]]
        res = pmap(P, [r[1] for r in rc])
    for (key, tr, rec, deps, targets), got in zip(rc, res):
        if rec:
            continue
        ls = got[2] if got[0] == "ok" else got
        flat = [x for l in ls for x in l] if isinstance(ls, list) else None
        ok = flat is not None and sorted(flat) == sorted(targets)
        pos = {x: i for i, l in enumerate(ls) for x in l} if ok else {}
        ok = ok and all(pos[a] > pos[b] for a, b in deps if a in pos and b in pos)
        c.ob("levels", key, lev[0].where(), ok, "shapes %s, dependencies %s: order %s" % (targets, deps, ls))
    c.floor("levels", 63, "acyclic reference structures")


def graphs(c, only="", floor=143, rec=True):
    P = c.prog
    c.rule("graph", "the compiled schema of a shapes graph has exactly the shapes the graph declares, each with the path, targets, constraints, nested shapes, severity, activation, closedness and texts declared for it")
    if rec:
        c.rule("recursion", "a schema is rejected exactly when a shape refers to itself through sh:property, sh:node, sh:not, sh:and, sh:or, sh:xone, sh:qualifiedValueShape or sh:reifierShape")
    par = [f for f in P.fns.values() if f.id.endswith(PARSE)]
    comp = [f for f in P.fns.values() if f.id.endswith("::IRSchema::compile")]
    if not (c.anchor("graph", "parse", par, "ShaclParser::parse") and c.anchor("graph", "compile", comp, "IRSchema::compile")):
        return
    gc, rc = [g for g in graph_cases() if re.search(only, g[0])], recursion_cases() if rec else []
    res = pmap(P, [t for _, t, _ in gc] + [r[1] for r in rc])
    for (key, tr, want), got in zip(gc, res):
        if want == "error":
            ok, msg = got[0] == "error", "the shapes graph is ill-formed and accepted: %s" % (got[1],)
        elif got[0] != "ok":
            ok, msg = False, "compiling %s: %s (%s)" % (" ".join(short(t) for t in tr), got[0], got[1])
        else:
            diff = []
            for n in sorted(set(want) | set(got[1])):
                a, b = want.get(n), got[1].get(n)
                if a is None or b is None:
                    diff.append("%s is %s" % (n, "no shape but compiled as one" if a is None else "a shape but not compiled"))
                else:
                    diff += ["%s of %s is %s, not %s" % (k, n, b.get(k), a[k]) for k in a if b.get(k) != a[k]]
            ok, msg = not diff, "%s: %s" % (" ".join(short(t) for t in tr), "; ".join(diff[:3]))
        c.ob("graph", key, comp[0].where(), ok, msg)
    c.floor("graph", floor, "shapes graphs")
    if not rec:
        return
    levels(c, rc, res[len(gc):])
    for (key, tr, rec, deps, targets), got in zip(rc, res[len(gc):]):
        g = {"ok": False, "error": True}.get(got[0])
        c.ob("recursion", key, comp[0].where(), g is rec, "%s is %s, and the schema is %s (%s)" % (" ".join("%s->%s" % d for d in deps), "recursive" if rec else "not recursive", "accepted" if g is False else "rejected" if g else "not decided", got[1] if got[0] != "ok" else ""))
    c.floor("recursion", 101, "reference structures")


_P = None


def _work(tr):
    return compiled(_P, tr)


def pmap(P, items):
    global _P
    import multiprocessing as mp, gc
    _P = P
    gc.freeze()
    with mp.get_context("fork").Pool(min(8, mp.cpu_count())) as pool:
        return pool.map(_work, items, chunksize=1)


def run(c):
    components(c)
    graphs(c)
