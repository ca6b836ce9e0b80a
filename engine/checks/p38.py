"""P38: ShEx node constraints: every kind of condition, every kind of value of a value set (tables over concrete terms and opaque numbers)."""
import itertools, re
from vf import absint, natives
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *
from checks.p22 import plain, table, anch
from checks.p19 import *

TITLE = "ShEx node constraints and value sets accept exactly the terms they describe"
A = {}
CK = "shex_ast::ast::cond_kind::CondKind"
XSD = "http://www.w3.org/2001/XMLSchema#"


def resolve(P):
    """the types are found by following the fields from the node and the condition, not by their paths"""
    ck = [k for k in P.adts if k.rsplit("::", 1)[-1] == "CondKind"]
    A["CK"] = ck[0] if len(ck) == 1 else CK
    for k, frm, v, i in (("OBJ", NODE, "Node", 0), ("CL", "OBJ", "Literal", 0), ("NL", "CL", "NumericLiteral", 0), ("IREF", "CL", "DatatypeLiteral", 1), ("LANG", "CL", "StringLiteral", 1), ("DT", "CL", "DatetimeLiteral", 0),
                         ("NK", "CK", "NodeKind", 0), ("VS", "CK", "ValueSet", 0), ("VSV", "VS", "ValueSet", 0), ("OV", "VSV", "ObjectValue", 0), ("IOW", "VSV", "IriStemRange", 0), ("SOW", "VSV", "LiteralStemRange", 0),
                         ("LOW", "VSV", "LanguageStemRange", 0), ("IE", "VSV", "IriStemRange", 1), ("LE", "VSV", "LiteralStemRange", 1), ("GE", "VSV", "LanguageStemRange", 1)):
        A[k] = field_adt(P, A.get(frm, frm), v, i)
    TERMS.update({"an IRI": obj("Iri", ("s", "http://e/x")), "a blank node": obj("BlankNode", ("s", "b1")), "a string": olit(strl("abc")), "a language string": olit(strl("abc", "en")),
                  "a typed literal": olit(dtl("abc", "http://e/d"))})


def iref(s): return ("a", A["IREF"], "Iri", (("s", s),))
def obj(variant, *f): return ("a", A["OBJ"], variant, f)
def lang(s): return ("a", A["LANG"], "", (("s", s),))
def lit(variant, *f): return ("a", A["CL"], variant, f)
def olit(v): return obj("Literal", v)
def strl(s, l=None): return lit("StringLiteral", ("s", s), Some(lang(l)) if l else NONE)
def dtl(s, d): return lit("DatatypeLiteral", ("s", s), iref(d))
def wrong(s, d): return lit("WrongDatatypeLiteral", ("s", s), iref(d), ("s", "E"))
def nod(o): return ("a", NODE, "", (o,))


TERMS = {}


def ckind(P, v, *f):
    return ("a", A["CK"], v, f)


def check(c, P):
    rid = "conditions"
    c.rule(rid, "every condition accepts exactly the nodes it describes: kind of node, datatype (of a well-formed literal), length and bounds of the length, pattern, bounds of the value, numbers of digits; "
                "for every outcome of the comparison with the bound")
    ev = [f for f in P.fns.values() if f.name == "eval" and "MatchKind" in f.id and "CondKind" in f.id]
    if not anch(c, rid, ev[0] if len(ev) == 1 else None, "CondKind::eval"):
        return
    ev = ev[0]
    st = {}

    def h_checked(I, site, name, callee, args, s):
        return [(st["checked"], s)]

    def h_len(I, site, name, callee, args, s):
        return [(("i", st["len"]), s)]

    def h_cmp(I, site, name, callee, args, s):
        a, b = (I.deref(x, s) for x in args[:2])
        if not (a[0] == "a" and b[0] == "a"):
            return None
        m = name.rsplit("::", 1)[1]
        ka, kb = a[3][0], b[3][0]
        r = {"<": "L", ">": "G", "=": "E", "!": "N"}[st["rel"]]
        if (ka, kb) == (("s", "BOUND"), ("s", "NODE")):
            r = {"L": "G", "G": "L"}.get(r, r)
        elif (ka, kb) != (("s", "NODE"), ("s", "BOUND")):
            return None
        yes = {"less_than": r == "L", "less_than_or_eq": r in "LE", "lt": r == "L", "le": r in "LE", "gt": r == "G", "ge": r in "GE", "eq": r == "E", "ne": r != "E"}
        if m == "partial_cmp":
            o = {"L": "Less", "G": "Greater", "E": "Equal"}.get(r)
            return [(Some(("a", "core::cmp::Ordering", o, ())) if o else NONE, s)]
        return [(("b", yes[m]), s)] if m in yes else None

    def h_digits(I, site, name, callee, args, s):
        v = st["digits"]
        return [(NONE if v is None else Some(("i", v)), s)]

    def h_regex(I, site, name, callee, args, s):
        st["regex"].append(I.deref(args[0], s))
        return [(Ok(("a", "REGEX", "", (I.deref(args[0], s),))) if st["re_ok"] else Err(("s", "BAD")), s)]

    def h_match(I, site, name, callee, args, s):
        st["subject"].append(I.deref(args[1], s))
        return [(("b", st["match"]), s)]
    hs = [(r"ConcreteLiteral::into_checked_literal$", h_checked), (r"Node::length$|Object::length$", h_len),
          (r"NumericLiteral::(less_than|less_than_or_eq)$|^<rudof_rdf.*NumericLiteral as core::cmp::Partial(Ord|Eq)>::\w+$", h_cmp), (r"NumericLiteral::(total_digits|fraction_digits)$", h_digits),
          (r"regex(_lite)?(::\w+)*::(Regex::new|Regex::from_str)$", h_regex), (r"regex(::\w+)*::Regex::is_match$", h_match)]
    m = M(P, hs + IRIS)
    I = m.I

    def run(kind, node_):
        outs = m.call(ev, kind, node_, I.sym("in", "CTX"))
        r = set()
        for o in outs or ():
            v = o[0]
            if v[0] != "a":
                r.add("?")
            elif v[2] == "Err":
                r.add("no")
            else:
                p = v[3][0]
                r.add("yes" if p[0] == "a" and all(x == lst([]) for x in p[3]) else "yes with something pending: %s" % (p,))
        return "/".join(sorted(r)) or "nothing"
    YN = lambda b: "yes" if b else "no"
    # any / kind
    rows = [("any node: %s" % d, run(ckind(P, "Any"), nod(t)), "yes") for d, t in TERMS.items()]
    KIND = {"Iri": {"an IRI"}, "BNode": {"a blank node"}, "Literal": {d for d, t in TERMS.items() if t[2] == "Literal"}, "NonLiteral": {"an IRI", "a blank node"}}
    for k, ok in KIND.items():
        for d, t in TERMS.items():
            rows.append(("%s: %s" % (k, d), run(ckind(P, "NodeKind", ("a", A["NK"], k, ())), nod(t)), YN(d in ok)))
    table(c, rid, "kind", ev, "conditions on the kind of a node", rows)
    # datatype
    rows = []
    dk = lambda d: ckind(P, "Datatype", ("s", d), ("s", "Q"))
    D, E = "http://e/d", "http://e/d2"
    num = ("a", A["NL"], "Integer", (("i", 1),))
    forms = [("well-formed literal of the datatype", Ok(dtl("abc", D)), D, True), ("well-formed literal of another datatype", Ok(dtl("abc", D)), E, False), ("ill-formed literal of the datatype", Ok(wrong("abc", D)), D, False),
             ("string, xsd:string", Ok(strl("abc")), XSD + "string", True), ("language string, xsd:string", Ok(strl("abc", "en")), XSD + "string", False),
             ("language string, rdf:langString", Ok(strl("abc", "en")), "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", True), ("number, xsd:integer", Ok(lit("NumericLiteral", num)), XSD + "integer", True),
             ("number, xsd:decimal", Ok(lit("NumericLiteral", num)), XSD + "decimal", False), ("boolean", Ok(lit("BooleanLiteral", ("b", True))), XSD + "boolean", True),
             ("boolean, xsd:string", Ok(lit("BooleanLiteral", ("b", True))), XSD + "string", False), ("literal that cannot be checked", Err(("s", "E")), D, False)]
    for d, chk, dt, want in forms:
        st["checked"] = chk
        rows.append((d, run(dk(dt), nod(olit(dtl("abc", D)))), YN(want)))
    for d in ("an IRI", "a blank node"):
        rows.append((d, run(dk(D), nod(TERMS[d])), "no"))
    table(c, rid, "datatype", ev, "conditions on the datatype", rows)
    # lengths
    rows = []
    for k, f in (("Length", lambda n, b: n == b), ("MinLength", lambda n, b: n >= b), ("MaxLength", lambda n, b: n <= b)):
        for d, t in TERMS.items():
            for n, b in itertools.product((0, 1, 2, 5), repeat=2):
                st["len"] = n
                rows.append(("%s %d, %s with %d characters" % (k, b, d, n), run(ckind(P, k, ("i", b)), nod(t)), YN(f(n, b))))
    table(c, rid, "length", ev, "conditions on the length", rows)
    # bounds
    rows = []
    wants = {"MinInclusive": ">=", "MinExclusive": ">", "MaxInclusive": "<=", "MaxExclusive": "<"}
    nodeval, bound = ("a", A["NL"], "Integer", (("s", "NODE"),)), ("a", A["NL"], "Integer", (("s", "BOUND"),))
    for k, ok in wants.items():
        for rel in "<=>!":
            st["rel"] = rel
            st["checked"] = Ok(lit("NumericLiteral", nodeval))
            rows.append(("%s, a number %s the bound" % (k, {"!": "not comparable with"}.get(rel, rel)), run(ckind(P, k, bound), nod(olit(dtl("abc", D)))), YN(rel in ok)))
        st["rel"] = "="
        for d, chk in (("string", Ok(strl("1"))), ("ill-formed number", Ok(wrong("x", XSD + "integer"))), ("boolean", Ok(lit("BooleanLiteral", ("b", True)))), ("literal of an unknown datatype", Ok(dtl("1", D))), ("literal that cannot be checked", Err(("s", "E")))):
            st["checked"] = chk
            rows.append(("%s, %s" % (k, d), run(ckind(P, k, bound), nod(olit(dtl("abc", D)))), "no"))
        for d in ("an IRI", "a blank node"):
            rows.append(("%s, %s" % (k, d), run(ckind(P, k, bound), nod(TERMS[d])), "no"))
    table(c, rid, "bounds", ev, "conditions on the value", rows)
    # digits
    rows = []
    for k in ("TotalDigits", "FractionDigits"):
        st["checked"] = Ok(lit("NumericLiteral", nodeval))
        for n in (None, 0, 1, 2, 3):
            for b in (0, 1, 2):
                st["digits"] = n
                rows.append(("%s %d, a number with %s" % (k, b, n), run(ckind(P, k, ("i", b)), nod(olit(dtl("abc", D)))), YN(n is not None and n <= b)))
        st["digits"] = 0
        for d, chk in (("string", Ok(strl("1"))), ("ill-formed number", Ok(wrong("x", XSD + "integer"))), ("literal that cannot be checked", Err(("s", "E")))):
            st["checked"] = chk
            rows.append(("%s, %s" % (k, d), run(ckind(P, k, ("i", 5)), nod(olit(dtl("abc", D)))), "no"))
        for d in ("an IRI", "a blank node"):
            rows.append(("%s, %s" % (k, d), run(ckind(P, k, ("i", 5)), nod(TERMS[d])), "no"))
    table(c, rid, "digits", ev, "conditions on the digits", rows)
    # pattern
    rows = []
    lex = {"an IRI": "http://e/x", "a blank node": "b1", "a string": "abc", "a language string": "abc", "a typed literal": "abc"}
    for fl in (NONE, Some(("s", "i")), Some(("s", ""))):
        for d, t in TERMS.items():
            for good, hit in ((True, True), (True, False), (False, True)):
                st.update(re_ok=good, match=hit, regex=[], subject=[])
                got = run(ckind(P, "Pattern", ("s", "^a"), fl, NONE), nod(t))
                want_re = ("s", "(?i)^a") if fl == Some(("s", "i")) else ("s", "^a")
                w = (YN(good and hit), {want_re}, {("s", lex[d])} if good else set())
                rows.append(("pattern %s, %s, %s" % ("with flags" if fl != NONE else "without flags", d, "invalid" if not good else "matching" if hit else "not matching"), (got, set(st["regex"]), set(st["subject"])), w))
    table(c, rid, "pattern", ev, "conditions on the lexical form", rows)
    # value set: any of its values
    cv = [f for f in P.fns.values() if plain(f.id) == A["VS"] + "::check_value"]
    mv = [f for f in P.fns.values() if plain(f.id) == A["VSV"] + "::match_value"]
    if not (anch(c, rid, cv[0] if cv else None, "ValueSet::check_value") and anch(c, rid, mv[0] if mv else None, "ValueSetValue::match_value")):
        return

    def h_mv(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(("b", v == ("s", "hit")), s)]
    m2 = M(P, [(r"ValueSetValue::match_value$", h_mv), (r"::show_qualified$", lambda I, site, name, callee, args, s: [(I.sym("in", "SHOWN"), s)])] + IRIS)
    rows = []
    for n in range(4):
        for hits in itertools.product((False, True), repeat=n):
            vs = struct(P, A["VS"], values=lst(("s", "hit" if h else "miss") for h in hits))
            outs = m2.call(ev, ckind(P, "ValueSet", vs, m2.I.sym("in", "PM")), nod(TERMS["an IRI"]), m2.I.sym("in", "CTX"))
            rows.append(("values %s" % (hits,), {o[0][2] for o in outs or ()}, {"Ok" if any(hits) else "Err"}))
    table(c, rid, "values", ev, "conditions on the value set", rows)


def values(c, P):
    rid = "values"
    c.rule(rid, "a value of a value set accepts exactly: the IRI or the literal it is, the IRIs (literals, language strings) that start with its stem and no exclusion, the language strings of its language")
    mv = [f for f in P.fns.values() if plain(f.id) == A["VSV"] + "::match_value"]
    if not anch(c, rid, mv[0] if mv else None, "ValueSetValue::match_value"):
        return
    mv = mv[0]
    st = {}

    def h_ml(I, site, name, callee, args, s):
        return [(("b", st["ml"]), s)]
    m = M(P, [(r"ConcreteLiteral::match_literal$", h_ml)] + IRIS)
    I = m.I
    IOW, SOW, LOW, OV = A["IOW"], A["SOW"], A["LOW"], A["OV"]
    wild = lambda a: ("a", a, "Wildcard", (("s", ""),))
    IRI = lambda s: obj("Iri", ("s", s))
    STR = lambda s, l=None: olit(strl(s, l))
    dterms = {"bnode": obj("BlankNode", ("s", "http://e/ab"))}
    for s in ("http://e/", "http://e/a", "http://e/ab", "http://f/a"):
        dterms["<%s>" % s] = IRI(s)
    for s in ("", "a", "ab", "abc", "b", "http://e/ab"):
        dterms['"%s"' % s] = STR(s)
        dterms['"%s"^^d' % s] = olit(dtl(s, "http://e/d"))
    for l in ("en", "en-US", "en-us", "fr", "fr-BE", "fr-BE-x"):
        dterms['"a"@%s' % l] = STR("a", l)
    kind = lambda t: t[2]
    lex = lambda t: t[3][0][1] if t[2] != "Literal" else t[3][0][3][0][1]
    lg = lambda t: t[3][0][3][1][3][0][3][0][1] if t[2] == "Literal" and t[3][0][2] == "StringLiteral" and t[3][0][3][1] != NONE else None
    out = {}

    def row(group, desc, v, want):
        for d, t in dterms.items():
            w = want(t)
            if w is None:
                continue
            outs = m.call(mv, v, t)
            out.setdefault(group, []).append(("%s, %s" % (desc, d), {o[0] for o in outs or ()}, {("b", w)}))
    val = lambda name, *f: ("a", A["VSV"], name, f)

    def lmatch(stem, tag):
        a, b = stem.lower().split("-"), tag.lower().split("-")
        return len(a) <= len(b) and a == b[:len(a)]
    for s in ("http://e/", "http://e/a", "http://e/ab"):
        row("iri", "<%s>" % s, val("ObjectValue", ("a", OV, "IriRef", (("s", s),))), lambda t: kind(t) == "Iri" and lex(t) == s)
        row("iri stem", "<%s>~" % s, val("IriStem", ("s", s)), lambda t: kind(t) == "Iri" and lex(t).startswith(s))
    for ml in (True, False):
        st["ml"] = ml
        row("literal", "literal %s" % ("equal" if ml else "different"), val("ObjectValue", ("a", OV, "ObjectLiteral", (strl("a"),))), lambda t: kind(t) == "Literal" and ml)
    ie = lambda k, s: ("a", A["IE"], k, (("s", s),))
    iex = [("", []), ("- <ab>", [("Iri", "http://e/ab")]), ("- <a>~", [("IriStem", "http://e/a")]), ("- <f/a> - <ab>~", [("Iri", "http://f/a"), ("IriStem", "http://e/ab")]), ("- <ab>~ - <e/>", [("IriStem", "http://e/ab"), ("Iri", "http://e/")])]
    for d, ex in iex:
        excl = Some(lst(ie(k, s) for k, s in ex)) if ex else NONE
        bad = lambda t, ex=ex: any(lex(t) == s if k == "Iri" else lex(t).startswith(s) for k, s in ex)
        for s in ("http://e/", "http://e/a"):
            row("iri stem range", "<%s>~ %s" % (s, d), val("IriStemRange", ("a", IOW, "Iri", (("s", s),)), excl), lambda t: kind(t) == "Iri" and lex(t).startswith(s) and not bad(t))
        row("iri stem range", ". %s" % d, val("IriStemRange", wild(IOW), excl), lambda t: not bad(t) if kind(t) == "Iri" else None)
    for s in ("", "a", "ab"):
        row("literal stem", '"%s"~' % s, val("LiteralStem", ("s", s)), lambda t: kind(t) == "Literal" and lex(t).startswith(s))
    le = lambda k, s: ("a", A["LE"], k, (("s", s),))
    lex_ = [("", []), ('- "ab"', [("Literal", "ab")]), ('- "ab"~', [("LiteralStem", "ab")]), ('- "b" - "abc"~', [("Literal", "b"), ("LiteralStem", "abc")]), ('- "ab"~ - "a"', [("LiteralStem", "ab"), ("Literal", "a")])]
    for d, ex in lex_:
        excl = Some(lst(le(k, s) for k, s in ex)) if ex else NONE
        bad = lambda t, ex=ex: any(lex(t) == s if k == "Literal" else lex(t).startswith(s) for k, s in ex)
        for s in ("", "a"):
            row("literal stem range", '"%s"~ %s' % (s, d), val("LiteralStemRange", ("a", SOW, "String", (("s", s),)), excl), lambda t: kind(t) == "Literal" and lex(t).startswith(s) and not bad(t))
        row("literal stem range", '. %s' % d, val("LiteralStemRange", wild(SOW), excl), lambda t: not bad(t) if kind(t) == "Literal" else None)
    for l in ("en", "en-US", "fr-BE"):
        row("language", "@%s" % l, val("Language", lang(l)), lambda t: lg(t) == l if (lg(t) or "").lower() != l.lower() or lg(t) == l else None)
        row("language stem", "@%s~" % l, val("LanguageStem", ("a", LOW, "Lang", (lang(l),))), lambda t: lg(t) is not None and lmatch(l, lg(t)))
    row("language stem", "@~", val("LanguageStem", wild(LOW)), lambda t: lg(t) is not None)
    ge = lambda k, s: ("a", A["GE"], k, (lang(s),))
    gex = [("", []), ("- @fr", [("Language", "fr")]), ("- @fr~", [("LanguageStem", "fr")]), ("- @en - @fr-BE~", [("Language", "en"), ("LanguageStem", "fr-BE")]), ("- @fr-BE~ - @en-US", [("LanguageStem", "fr-BE"), ("Language", "en-US")])]
    for d, ex in gex:
        excl = Some(lst(ge(k, s) for k, s in ex)) if ex else NONE
        bad = lambda t, ex=ex: any(lg(t) == s if k == "Language" else lmatch(s, lg(t)) for k, s in ex)
        near = lambda t, ex=ex: any(k == "Language" and lg(t) != s and lg(t).lower() == s.lower() for k, s in ex)
        for s in ("en", "fr", "fr-BE"):
            row("language stem range", "@%s~ %s" % (s, d), val("LanguageStemRange", ("a", LOW, "Lang", (lang(s),)), excl), lambda t: lg(t) is not None and lmatch(s, lg(t)) and not bad(t) if lg(t) is None or not near(t) else None)
        row("language stem range", ". %s" % d, val("LanguageStemRange", wild(LOW), excl), lambda t: not bad(t) if lg(t) is not None and not near(t) else None)
    for g, rows in out.items():
        table(c, rid, g.replace(" ", "-"), mv, "values of a value set: %s" % g, rows)


def run(c):
    P = c.prog
    resolve(P)
    check(c, P)
    values(c, P)
    from checks import p23
    p23.spaces(c, P)
    p23.order(c, P)
    p23.digits(c, P)
