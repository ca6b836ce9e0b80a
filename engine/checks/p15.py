"""SHACL value, range, length, cardinality, pair constraints: tables of both engines."""
from vf.shacl import *

TITLE = "SHACL core value constraints decide as defined, in both validation engines"
C = COMP


def table(c, rid, key, F, component, atoms, spec, text):
    outs = F.run(component)
    bad, rows = decide(outs, atoms, spec, verdict(F))
    c.scope["rows"] = c.scope.get("rows", 0) + rows
    msg = ""
    if bad:
        a, w, g = bad[0]
        msg = "%s; for %s the results must be %s but a path yields %s (%d of %d rows differ)%s" % (
            text, show_asg(a) or "every input", sorted(w, key=str) if not isinstance(w, str) else w,
            [sorted(x, key=str) if not isinstance(x, str) else x for x in sorted(g, key=str)], len(bad), rows,
            "; " + "; ".join(sorted(F.problems)) if F.problems else "")
    c.ob(rid, key, "%s -> %s" % (F.fn.where(), component[2]), not bad and rows > 0, msg)


def comp(c, F, rid, key, name, path, args):
    inner = build(F.I, c.prog, C + path + "::new", args)
    if inner is None:
        c.ob(rid, key, "-", False, "cannot build the component " + name)
        return None
    if inner[0] == "a" and inner[2] == "Ok":
        inner = inner[3][0]
    return F.comp(name, inner)


def run(c):
    P = c.prog
    c.rule("range", "sh:min/maxInclusive/Exclusive: a value node violates iff it is no literal, is not comparable to the bound, or does not compare as required")
    for w in ("native", "sparql"):
        for name, mod, ok in (("MinInclusive", "min_inclusive", "GE"), ("MinExclusive", "min_exclusive", "G"),
                              ("MaxInclusive", "max_inclusive", "LE"), ("MaxExclusive", "max_exclusive", "L")):
            F = VFrame(P, w)
            I = F.I
            thr = I.sym("in", "BOUND")
            k = "%s/%s" % (w, name)
            cp = comp(c, F, "range", k, name, "%s::%s" % (mod, name), [thr])
            if cp is None:
                continue
            v = F.vns[0][1][0]
            F.ordval = lambda t, F=F, I=I: (I.sym("lit", t) if I.tag(t)[0] != "term" else thr)
            atoms = [kind_atom(F, v), ord_atom(I, "v ? bound", I.sym("lit", v), thr, "LEGN")]

            def spec(a, ok=ok, name=name):
                if a["kind(v1)"] != "Literal" or a["v ? bound"] not in ok:
                    return frozenset({("F", "v1", "sh:%sConstraintComponent" % name, "")})
                return frozenset()
            table(c, "range", k, F, cp, atoms, spec, "%s in the %s engine" % (name, w))
    lengths(c)
    kinds(c)
    counts(c)
    members(c)
    langs(c)
    pairs(c)
    classes(c)
    closed(c)
    sparqlterms(c)
    from checks import p16, p23
    p16.components(c, "^(?!and|or|xone|not|node/|qualified|sparql)", 90)
    p16.graphs(c, "^(closed|ignored|parameter)", 50, False)
    p23.resolve(P)
    p23.order(c, P)
    for r, n in (("range", 8), ("length", 4), ("pattern", 4), ("nodekind", 13), ("datatype", 2), ("count", 64), ("in", 8), ("hasvalue", 8), ("languagein", 6),
                 ("uniquelang", 14), ("equals", 16), ("disjoint", 16), ("lessthan", 32), ("class", 30), ("closed", 60)):
        c.floor(r, n, "components x engines x configurations")
    c.notes.append("orderings, matches, conformance and equality of terms are named observations; their own definitions are decided under P23 and P25")
    c.notes.append("value nodes are IRIs, blank nodes and literals (RDF-star triple terms are outside the property); sets have 0-3 members, class graphs are the listed ones")


def one(F, bad, comp):
    return frozenset({("F", "v1", "sh:%sConstraintComponent" % comp, "")}) if bad else frozenset()


def lengths(c):
    P = c.prog
    c.rule("length", "sh:minLength/maxLength: a value node violates iff it is a blank node or the number of characters of its text is out of bounds")
    c.rule("pattern", "sh:pattern: a value node violates iff it is a blank node or its text does not match the pattern with its flags")
    for w in ("native", "sparql"):
        for name, mod, ok in (("MinLength", "min_length", "GE"), ("MaxLength", "max_length", "LE")):
            F = VFrame(P, w)
            I = F.I
            k = "%s/%s" % (w, name)
            n = ("i", 5)
            cp = comp(c, F, "length", k, name, "%s::%s" % (mod, name), [n])
            if cp is None:
                continue
            v = F.vns[0][1][0]
            atoms = [kind_atom(F, v), ord_atom(I, "chars ? bound", I.sym("strlen", I.sym("text", v)), n)]
            table(c, "length", k, F, cp, atoms, lambda a, ok=ok, name=name, F=F: one(F, a["kind(v1)"] == "BlankNode" or a["chars ? bound"] not in ok, name),
                  "%s in the %s engine" % (name, w))
        for flags in (False, True):
            F = VFrame(P, w)
            I = F.I
            pat, fl = I.sym("in", "PATTERN"), I.sym("in", "FLAGS")
            k = "%s/Pattern/%s" % (w, "flags" if flags else "noflags")
            cp = comp(c, F, "pattern", k, "Pattern", "pattern::Pattern", [pat, Some(fl) if flags else NONE])
            if cp is None:
                continue
            v = F.vns[0][1][0]
            y = I.sym("matches", I.sym("regex", pat, Some(fl) if flags else NONE), I.sym("text", v))
            F.pat = (pat, fl if flags else None)
            atoms = [kind_atom(F, v), bool_atom(I, "match", y)]
            table(c, "pattern", k, F, cp, atoms, lambda a, F=F: one(F, a["kind(v1)"] == "BlankNode" or not a["match"], "Pattern"),
                  "Pattern in the %s engine" % w)


NK = {"Iri": {"Iri"}, "Lit": {"Literal"}, "BNode": {"BlankNode"}, "BNodeOrIri": {"BlankNode", "Iri"}, "BNodeOrLit": {"BlankNode", "Literal"}, "IriOrLit": {"Iri", "Literal"}}


def kinds(c):
    P = c.prog
    c.rule("nodekind", "sh:nodeKind: a value node violates iff its kind is not among the kinds the node kind names")
    c.rule("datatype", "sh:datatype: a value node violates iff it is no literal, has another datatype, or is ill-formed for it")
    adt = [p for p in P.adts if p.endswith("types::node_kind::NodeKind") and p.startswith("shacl")]
    vs = [v["n"] for v in P.variants(adt[0])] if adt else []
    c.ob("nodekind", "variants", "-", set(vs) == set(NK), "NodeKind has the variants %s" % vs)
    for w in ("native", "sparql"):
        for nk in sorted(set(vs) & set(NK)):
            F = VFrame(P, w)
            k = "%s/%s" % (w, nk)
            cp = comp(c, F, "nodekind", k, "NodeKind", "node_kind::Nodekind", [("a", adt[0], nk, ())])
            if cp is None:
                continue
            v = F.vns[0][1][0]
            table(c, "nodekind", k, F, cp, [kind_atom(F, v)], lambda a, nk=nk, F=F: one(F, a["kind(v1)"] not in NK[nk], "NodeKind"), "sh:nodeKind %s in the %s engine" % (nk, w))
        F = VFrame(P, w)
        I = F.I
        k = "%s/Datatype" % w
        cp = comp(c, F, "datatype", k, "Datatype", "datatype::Datatype", [I.sym("in", "DT")])
        if cp is None:
            continue
        v = F.vns[0][1][0]
        lit = I.sym("lit", v)
        dt = I.sym("in", "DT")
        conc = [p for p in P.adts if p.endswith("literal::ConcreteLiteral")][0]
        atoms = [kind_atom(F, v), bool_atom(I, "parses", I.sym("parses", lit)), var_atom(I, P, "form", I.sym("conc", lit), conc), ord_atom(I, "datatype ? expected", I.sym("dt", lit), dt)]
        table(c, "datatype", k, F, cp, atoms, lambda a, F=F: one(F, not (a["kind(v1)"] == "Literal" and a["parses"] and a["form"] != "WrongDatatypeLiteral"
                                                                        and a["datatype ? expected"] == "E"), "Datatype"), "sh:datatype in the %s engine" % w)


def counts(c):
    P = c.prog
    c.rule("count", "sh:minCount/maxCount: a focus node violates iff its number of value nodes is out of bounds")
    for w in ("native", "sparql"):
        for name, mod, bad in (("MinCount", "min_count", lambda n, b: n < b), ("MaxCount", "max_count", lambda n, b: n > b)):
            for n in range(0, 4):
                for b in range(0, 4):
                    F = VFrame(P, w, vns=(("F", tuple("v%d" % i for i in range(n))),))
                    k = "%s/%s/%d/%d" % (w, name, n, b)
                    cp = comp(c, F, "count", k, name, "%s::%s" % (mod, name), [("i", b)])
                    if cp is None:
                        continue
                    want = frozenset({("F", None, "sh:%sConstraintComponent" % name, "")}) if bad(n, b) else frozenset()
                    table(c, "count", k, F, cp, [], lambda a, want=want: want, "%s %d with %d value nodes in the %s engine" % (name, b, n, w))


def members(c):
    P = c.prog
    c.rule("in", "sh:in: a value node violates iff it equals no member of the list")
    c.rule("hasvalue", "sh:hasValue: a focus node violates iff no value node equals the value")
    for w in ("native", "sparql"):
        for k in range(0, 4):
            F = VFrame(P, w)
            I = F.I
            os = [I.sym("in", "o%d" % (i + 1)) for i in range(k)]
            F._objs = os
            key = "%s/In/%d" % (w, k)
            cp = comp(c, F, "in", key, "In", "in_component::In" if False else inpath(P, "In"), [("L", tuple(os))])
            if cp is None:
                continue
            v = F.vns[0][1][0]
            atoms = [eq_atom(F, "v1=o%d" % (i + 1), (F.term(o), v), (v, F.term(o)), (o, F.obj(v)), (F.obj(v), o)) for i, o in enumerate(os)]
            table(c, "in", key, F, cp, atoms, lambda a, F=F: one(F, not any(a.values()), "In"), "sh:in with %d members in the %s engine" % (k, w))
        for n in range(0, 4):
            F = VFrame(P, w, vns=(("F", tuple("v%d" % (i + 1) for i in range(n))),))
            I = F.I
            o = I.sym("in", "o")
            F._objs = [o]
            key = "%s/HasValue/%d" % (w, n)
            cp = comp(c, F, "hasvalue", key, "HasValue", inpath(P, "HasValue"), [o])
            if cp is None:
                continue
            atoms = [eq_atom(F, "v%d=o" % (i + 1), (F.term(o), v), (o, F.obj(v))) for i, v in enumerate(F.vns[0][1])]
            table(c, "hasvalue", key, F, cp, atoms, lambda a: frozenset() if any(a.values()) else frozenset({("F", None, "sh:HasValueConstraintComponent", "")}),
                  "sh:hasValue with %d value nodes in the %s engine" % (n, w))


def inpath(P, name):
    """module path of a component struct"""
    ds = [p for p in P.adts if p.startswith(C) and p.endswith("::" + name)]
    return ds[0][len(C):] if len(ds) == 1 else name


def langs(c):
    P = c.prog
    c.rule("languagein", "sh:languageIn: a value node violates iff it is no literal, has no language tag, or the tag matches no basic language range of the list, ignoring case")
    c.rule("uniquelang", "sh:uniqueLang true: a focus node has one result per language tag shared by several value nodes; false: no results")
    for w in ("native", "sparql"):
        for k in range(0, 3):
            F = VFrame(P, w)
            I = F.I
            lx = [I.sym("in", "l%d" % (i + 1)) for i in range(k)]
            key = "%s/LanguageIn/%d" % (w, k)
            cp = comp(c, F, "languagein", key, "LanguageIn", inpath(P, "LanguageIn"), [("L", tuple(F.langval(x) for x in lx))])
            if cp is None:
                continue
            v = F.vns[0][1][0]
            lit = I.sym("lit", v)
            low = I.sym("lower", I.sym("langtext", lit))
            atoms = [kind_atom(F, v), var_atom(I, P, "tag", I.sym("lang", lit), absint.OPT, ["None", "Some"])]
            for i, x in enumerate(lx):
                lo = I.sym("lower", x)
                atoms += [eq_atom(F, "tag=l%d" % (i + 1), (low, lo)), bool_atom(I, "tag starts with l%d" % (i + 1), I.sym("prefix", low, lo)),
                          bool_atom(I, "tag starts with l%d-" % (i + 1), I.sym("prefix", low, I.sym("cat", ("t", (lo, ("s", "-"))))))]

            def spec(a, F=F, k=k):
                hit = False
                for i in range(1, k + 1):
                    e, p, d = a["tag=l%d" % i], a["tag starts with l%d" % i], a["tag starts with l%d-" % i]
                    if (e and (d or not p)) or (d and not p):
                        return None
                    hit |= e or d
                return one(F, not (a["kind(v1)"] == "Literal" and a["tag"] == "Some" and hit), "LanguageIn")
            table(c, "languagein", key, F, cp, atoms, spec, "sh:languageIn with %d tags in the %s engine" % (k, w))
        for on in (True, False):
            for n in range(0, 4):
                if n == 3 and not on:
                    continue
                F = VFrame(P, w, vns=(("F", tuple("v%d" % (i + 1) for i in range(n))),))
                I = F.I
                key = "%s/UniqueLang/%s/%d" % (w, on, n)
                cp = comp(c, F, "uniquelang", key, "UniqueLang", inpath(P, "UniqueLang"), [("b", on)])
                if cp is None:
                    continue
                vs = F.vns[0][1]
                lits = [I.sym("lit", v) for v in vs]
                atoms = []
                for v, l in zip(vs, lits):
                    atoms += [kind_atom(F, v), var_atom(I, P, "tag(%s)" % I.show(v), I.sym("lang", l), absint.OPT, ["None", "Some"])]
                prs = [(i, j) for i in range(n) for j in range(i)]
                for i, j in prs:
                    a, b = I.sym("langtext", lits[i]), I.sym("langtext", lits[j])
                    atoms.append(eq_atom(F, "tag(v%d)=tag(v%d)" % (i + 1, j + 1), (a, b), (I.sym("lower", a), I.sym("lower", b))))

                def spec(a, on=on, n=n, prs=prs):
                    eq = {p: a["tag(v%d)=tag(v%d)" % (p[0] + 1, p[1] + 1)] for p in prs}
                    if n == 3 and sum(eq.values()) == 2:
                        return None
                    has = [a["kind(v%d)" % (i + 1)] == "Literal" and a["tag(v%d)" % (i + 1)] == "Some" for i in range(n)]
                    if on and any(eq[p] and has[p[0]] and has[p[1]] for p in prs):
                        return frozenset({("F", None, "sh:UniqueLangConstraintComponent", "")})
                    return frozenset()
                table(c, "uniquelang", key, F, cp, atoms, spec, "sh:uniqueLang %s with %d value nodes in the %s engine" % (on, n, w))


def pairs(c):
    P = c.prog
    c.rule("equals", "sh:equals: one result for each value node that is no value of the property and for each value of the property that is no value node")
    c.rule("disjoint", "sh:disjoint: one result for each value node that is a value of the property")
    c.rule("lessthan", "sh:lessThan(OrEquals): a result for each value node that is not less than (or equal to) some value of the property; terms that are no literals are not comparable")
    K = lambda F, ts: [kind_atom(F, t) for t in ts]
    for w in ("native", "sparql"):
        for n in range(0, 3):
            for m in range(0, 3):
                if n + m == 4:
                    continue
                for name in ("Equals", "Disjoint", "LessThan", "LessThanOrEquals"):
                    F = VFrame(P, w, vns=(("F", tuple("v%d" % (i + 1) for i in range(n))),))
                    I = F.I
                    prop = I.sym("in", "P")
                    f, vs = F.vns[0]
                    ws = [I.sym("in", "w%d" % (i + 1)) for i in range(m)]
                    F.edges = {(f, prop): ws}
                    base = [{x: x for x in g} | {F.obj(x): x for x in g} | {F.term(x): x for x in g} for g in (vs, ws)]
                    I.pol.distinct = lambda I, a, b, base=base: any(a in g and b in g and g[a] != g[b] for g in base)   # value sets have no duplicates
                    F.ordval = lambda t, I=I: I.sym("lit", t)
                    rid = {"Equals": "equals", "Disjoint": "disjoint"}.get(name, "lessthan")
                    key = "%s/%s/%d/%d" % (w, name, n, m)
                    cp = comp(c, F, rid, key, name, inpath(P, name), [prop])
                    if cp is None:
                        continue
                    atoms = K(F, [f] + vs + ws)
                    rel = {}
                    for v in vs:
                        for x in ws:
                            nm = "%s ? %s" % (I.show(v), I.show(x))
                            o, q = F.obj(v), F.obj(x)
                            if rid == "lessthan":
                                atoms.append(ordm_atom(F, nm, "LEGN", (o, q), (I.payload(o, "Literal"), I.payload(q, "Literal")), (I.sym("lit", v), I.sym("lit", x))))
                            else:
                                atoms.append(eq_atom(F, nm, (v, x), (o, q)))

                    def spec(a, F=F, I=I, f=f, vs=vs, ws=ws, name=name, rid=rid):
                        kd = lambda t: a["kind(%s)" % I.show(t)]
                        R = lambda v, x: a["%s ? %s" % (I.show(v), I.show(x))]
                        W = [] if kd(f) == "Literal" else ws
                        if f is not None and kd(f) == "Literal" and ws:
                            return None         # a literal has no triples
                        out = set()
                        C = "sh:%sConstraintComponent" % name
                        if rid == "lessthan":
                            for v in vs:
                                for x in W:
                                    lits = kd(v) == "Literal" and kd(x) == "Literal"
                                    if not (lits and R(v, x) in ("L" if name == "LessThan" else "LE")):
                                        out.add(("F", I.show(v), C, ""))
                            return frozenset(out)
                        for v in vs:
                            for x in ws:
                                if R(v, x) and kd(v) != kd(x):
                                    return None
                        for x in ws:            # distinct value nodes, distinct values
                            if sum(R(v, x) for v in vs) > 1:
                                return None
                        for v in vs:
                            if sum(R(v, x) for x in ws) > 1:
                                return None
                        for v in vs:
                            hit = any(R(v, x) for x in W)
                            if hit == (rid == "disjoint"):
                                out.add(("F", I.show(v), C, ""))
                        if rid == "equals":
                            for x in W:
                                if not any(R(v, x) for v in vs):
                                    out.add(("F", I.show(x), C, ""))
                        return frozenset(out)
                    table(c, rid, key, F, cp, atoms, spec, "%s with %d value nodes and %d values of the property in the %s engine" % (name, n, m, w))


TYPE, SUB = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "http://www.w3.org/2000/01/rdf-schema#subClassOf"
# (types of the value node, subClassOf edges)
CLASSES = [((), ()), (("C",), ()), (("D",), ()), (("D",), (("D", "C"),)), (("D",), (("C", "D"),)), (("D",), (("D", "E"), ("E", "C"))),
           (("D",), (("D", "E"), ("E", "G"), ("G", "C"))), (("D",), (("D", "E"), ("E", "D"))), (("D",), (("D", "E"), ("E", "D"), ("E", "C"))),
           (("D", "E"), (("E", "C"),)), (("E", "D"), (("E", "C"),)), (("D",), (("D", "E"), ("D", "C"))), (("D",), (("D", "D"),)),
           (("D", "C"), (("C", "C"),)), (("D",), (("D", "E"), ("D", "G"), ("G", "C"), ("E", "H"))),
           # a blank node among the classes
           (("U",), ()), (("U",), (("U", "C"),)), (("D",), (("D", "U"), ("U", "C")))]


def classes(c):
    P = c.prog
    c.rule("class", "sh:class: a value node violates iff it is a literal or none of its types reaches the class over rdfs:subClassOf in any number of steps")
    for w in ("native", "sparql"):
        for i, (types, sub) in enumerate(CLASSES):
            F = VFrame(P, w)
            I = F.I
            v = F.vns[0][1][0]
            F.const_iri = True
            N = lambda x: ("s", "_:" + x if x == "U" else "http://e/" + x)
            F.edges = {(v, TYPE): [N(t) for t in types]}
            for a, b in sub:
                F.edges.setdefault((N(a), SUB), []).append(N(b))
            key = "%s/Class/%d" % (w, i)
            cp = comp(c, F, "class", key, "Class", inpath(P, "Class"), [F.obj(N("C"))])
            if cp is None:
                continue
            up, front = set(types), list(types)
            while front:
                x = front.pop()
                for a, b in sub:
                    if a == x and b not in up:
                        up.add(b)
                        front.append(b)
            inst = "C" in up
            table(c, "class", key, F, cp, [kind_atom(F, v)], lambda a, F=F, inst=inst: one(F, a["kind(v1)"] == "Literal" or not inst, "Class"),
                  "sh:class with types %s and subclasses %s in the %s engine" % (list(types), list(sub), w))


def closed(c):
    P = c.prog
    c.rule("closed", "sh:closed true: one result per triple of the focus node whose predicate is not allowed, with the predicate as path and the object as value; false: no results")
    Q = lambda x: "http://e/p" + x
    for w in ("native", "sparql"):
        for on in (True, False):
            for allowed in ("", "1", "2", "12", "3"):
                for preds in ("", "1", "12"):
                    F = VFrame(P, w)
                    I = F.I
                    F.const_iri = F.pred_path = True
                    F.allowed = [Q(x) for x in allowed]
                    f = F.vns[0][0]
                    F.edges = {(f, Q(x)): [I.sym("in", "o" + x)] for x in preds}
                    key = "%s/Closed/%s/%s/%s" % (w, on, allowed or "-", preds or "-")
                    cp = comp(c, F, "closed", key, "Closed", inpath(P, "Closed"), [("b", on), ("L", ())])
                    if cp is None:
                        continue

                    def spec(a, on=on, allowed=allowed, preds=preds):
                        if a["kind(F)"] == "Literal":
                            return None if preds else frozenset()
                        return frozenset(("F", "o" + x, "sh:ClosedConstraintComponent", Q(x)) for x in preds if on and x not in allowed)
                    table(c, "closed", key, F, cp, [kind_atom(F, f)], spec, "sh:closed %s allowing {%s} on a node with {%s} in the %s engine" % (on, allowed, preds, w))


def read_term(s):
    """a SPARQL term -> (kind, lexical form, datatype or language tag), or None when it is not one"""
    import re
    if s.startswith("<"):
        return ("iri", s[1:-1], None) if s.endswith(">") and not re.search(r'[\x00-\x20<>"{}|^`\\]', s[1:-1]) else None
    if not s.startswith('"'):
        return None
    out, i, esc = "", 1, {"t": "\t", "n": "\n", "r": "\r", "b": "\b", "f": "\f", '"': '"', "'": "'", "\\": "\\"}
    while True:
        if i >= len(s) or s[i] in "\n\r":
            return None
        if s[i] == '"':
            break
        if s[i] == "\\":
            if i + 1 >= len(s) or s[i + 1] not in esc:
                return None
            out, i = out + esc[s[i + 1]], i + 2
        else:
            out, i = out + s[i], i + 1
    rest = s[i + 1:]
    if not rest:
        return ("literal", out, XS + "string")
    if rest.startswith("^^<") and rest.endswith(">"):
        return ("literal", out, rest[3:-1])
    return ("lang", out, rest[1:]) if re.fullmatch(r"@[a-zA-Z]+(-[a-zA-Z0-9]+)*", rest) else None


XS = "http://www.w3.org/2001/XMLSchema#"
TEXTS = ["", "a", 'a"b', "a\\b", "a\nb", "a\rb", "a\tb", "\\n", '"', "\\", 'x\\"y', "'", "a\r\n", "é", "日本", "\U0001f600x", "{}", "%s", "a ", "?x", "<", "\n\n", '""']


def sparqlterms(c):
    """the functions that write a term into a SPARQL query, on every kind of term and every character that SPARQL strings treat specially"""
    from checks import p23, p38
    from checks.p38 import obj, lit, olit, strl, dtl, wrong
    P = c.prog
    c.rule("sparqlterms", "a term written into a SPARQL query is that term: an IRI, or a literal with the same lexical form and datatype or language tag; blank nodes are never written; "
                          "escaping a text yields the inside of a SPARQL string that denotes the text")
    p38.resolve(P)
    fs = [f for f in P.fns.values() if f.kind == "fn" and f.id.startswith("shacl::") and f.argc == 1 and f.local_ty(1)["s"].endswith("Object") and "Option<" in f.local_ty(0)["s"] and f.local_ty(0)["s"].rstrip(">").endswith("String")]
    es = [f for f in P.fns.values() if f.kind == "fn" and f.id.startswith("shacl::") and f.argc == 1 and f.name.startswith("escape") and f.local_ty(0)["s"].endswith("string::String")]
    if not (c.anchor("sparqlterms", "terms", fs, "Object -> SPARQL text") and c.anchor("sparqlterms", "escape", es, "text -> SPARQL string")):
        return
    rows = [(obj("Iri", ("s", "http://e/x#y")), ("iri", "http://e/x#y", None)), (obj("BlankNode", ("s", "b1")), None)]
    for t in TEXTS:
        rows.append((olit(strl(t)), ("literal", t, XS + "string")))
        rows.append((olit(strl(t, "en-GB")), ("lang", t, "en-GB")))
        rows.append((olit(dtl(t, "http://e/d")), ("literal", t, "http://e/d")))
        rows.append((olit(wrong(t, XS + "integer")), ("literal", t, XS + "integer")))
    rows += [(olit(lit("BooleanLiteral", ("b", b))), ("literal", str(b).lower(), XS + "boolean")) for b in (True, False)]
    rows += [(olit(p23.nlit(k, v)), ("literal", str(v), XS + p23.INTS[k][0])) for k in p23.INTS for v in (1, -1) if not (k.startswith(("Unsigned", "NonNeg", "Pos")) and v < 0) and not (k.startswith(("NonPos", "Neg")) and v > 0)]
    rows += [(olit(p23.nlit("Decimal", "1.50")), ("literal", "1.50", XS + "decimal"))]
    from checks.p19 import M
    m = M(P, [(r"ToString>?::to_string$", p23.h_show), (r"NumericLiteral::lexical_form$", p23.h_show)] + p23.decs() + IRIS, inline_display=True)
    for f in fs:
        for i, (v, want) in enumerate(rows):
            outs = {o[0] for o in m.I.exec_fn(f, (v,), (), {}, (), ())}
            got = outs.pop() if len(outs) == 1 else None
            if got is None:
                g = "not exact"
            elif got == NONE:
                g = None
            else:
                s = got[3][0] if got[0] == "a" and got[2] == "Some" else got
                g = read_term(s[1]) if s[0] == "s" else "not exact: %s" % m.I.show(s)[:80]
                g = "no SPARQL term: %s" % s[1] if g is None else g
            c.ob("sparqlterms", "%s/%d" % (f.name, i), f.where(), g == want, "%s is written as %s instead of %s" % (m.I.show(v)[-120:], g, want))
    for f in es:
        for i, t in enumerate(TEXTS):
            outs = {o[0] for o in m.I.exec_fn(f, (("s", t),), (), {}, (), ())}
            s = outs.pop() if len(outs) == 1 else ("?",)
            g = read_term('"%s"' % s[1]) if s[0] == "s" else None
            c.ob("sparqlterms", "escape/%s/%d" % (f.name, i), f.where(), g == ("literal", t, XS + "string"), "%r is escaped as %s" % (t, s[1] if s[0] == "s" else m.I.show(s)[:80]))
    c.floor("sparqlterms", 120, "terms and texts")
