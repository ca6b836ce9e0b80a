"""P23: literals: lexical spaces, comparison, identity, accessors, conversions (tables over every variant; decimals and floats modelled exactly on a grid)."""
import itertools, math, re, struct
from decimal import Decimal
from fractions import Fraction
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *
from checks.p22 import plain, table, anch
from checks.p19 import M, lst
from checks import p38
from checks.p38 import A, XSD, resolve, obj, lit, olit, strl, dtl, wrong, lang, iref, nod

TITLE = "Literals have the value, order, datatype and identity that RDF and XSD give them"
DEC, OXL = "Decimal", "oxrdf::literal::Literal"
ORD = "core::cmp::Ordering"
INTS = {"Integer": ("integer", None, None), "Long": ("long", -2**63, 2**63 - 1), "Int": ("int", -2**31, 2**31 - 1), "Short": ("short", -2**15, 2**15 - 1), "Byte": ("byte", -128, 127),
        "NonNegativeInteger": ("nonNegativeInteger", 0, None), "PositiveInteger": ("positiveInteger", 1, None), "NonPositiveInteger": ("nonPositiveInteger", None, 0), "NegativeInteger": ("negativeInteger", None, -1),
        "UnsignedLong": ("unsignedLong", 0, 2**64 - 1), "UnsignedInt": ("unsignedInt", 0, 2**32 - 1), "UnsignedShort": ("unsignedShort", 0, 2**16 - 1), "UnsignedByte": ("unsignedByte", 0, 255)}
NAMES = dict({k: v[0] for k, v in INTS.items()}, Decimal="decimal", Double="double", Float="float")


def dec(s): return ("a", DEC, "", (("s", s),))
def frac(v): return Fraction(v[3][0][1])
def num(k, v): return ("a", A["NL"], k, (("i", v) if isinstance(v, int) else dec(v) if k == "Decimal" else ("fl", repr(float(v))),))
def nlit(k, v): return lit("NumericLiteral", num(k, v))
def h_show(I, site, name, callee, args, s):
    """the lexical form of a number or a date is the one it is printed with"""
    v = I.deref(args[0], s)
    while v[0] == "a" and len(v[3]) == 1 and v[1] != DEC:
        v = v[3][0]
    if v[0] == "a" and v[1] == DEC:
        return [(v[3][0], s)]
    return [(("s", str(v[1])), s)] if v[0] in ("i", "s") else [(("s", "true" if v[1] else "false"), s)] if v[0] == "b" else [(("s", "lex " + v[1]), s)] if v[0] == "fl" else None


def ordv(c): return ("a", ORD, {-1: "Less", 0: "Equal", 1: "Greater"}[c], ())
def oxl(lex, dt, lg): return ("a", OXL, "", (lex, dt, lg))


def canon(s):
    """the canonical form of a decimal numeral"""
    neg, s = s[:1] == "-", s.lstrip("+-")
    a, _, b = s.partition(".")
    a, b = a.lstrip("0") or "0", b.rstrip("0")
    return ("-" if neg and (a, b) != ("0", "") else "") + a + ("." + b if b else "")


def decs():
    def h_from(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        if v[0] == "i":
            return [(Some(dec(str(v[1]))) if abs(v[1]) < 2**96 else NONE, s)]
        if v[0] == "fl":
            x = float(v[1])
            return [(NONE if x != x or abs(x) >= 2.0**96 else Some(dec(canon(format(Decimal(format(x, ".15g")), ".28f")))), s)]
        return None

    def h_cmp(I, site, name, callee, args, s):
        a, b = (I.deref(x, s) for x in args[:2])
        if not (a[0] == b[0] == "a" and a[1] == b[1] == DEC):
            return None
        x, y, m = frac(a), frac(b), name.rsplit("::", 1)[1]
        c = (x > y) - (x < y)
        if m in ("cmp", "partial_cmp"):
            return [(ordv(c) if m == "cmp" else Some(ordv(c)), s)]
        return [(("b", {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[m]), s)] if m in ("eq", "ne", "lt", "le", "gt", "ge") else None

    def h_un(I, site, name, callee, args, s):
        a, m = I.deref(args[0], s), name.rsplit("::", 1)[1]
        if not (a[0] == "a" and a[1] == DEC):
            return None
        x = a[3][0][1]
        if m == "normalize":
            return [(dec(canon(x)), s)]
        if m == "abs":
            return [(dec(x.lstrip("-")), s)]
        if m == "scale":
            return [(("i", len(x.partition(".")[2])), s)]
        if m in ("trunc",):
            return [(dec(x.partition(".")[0]), s)]
        if m == "to_f64":
            return [(Some(("fl", repr(float(Fraction(x))))), s)]
        return None

    def h_str(I, site, name, callee, args, s):
        a = I.deref(args[0], s)
        if a[0] == "a" and a[1] == DEC:
            return [(a[3][0], s)]
        return None

    def h_parse(I, site, name, callee, args, s):
        v = I.deref(args[-1] if "FromStr" in name or "from_str" in name else args[0], s)
        t = I.gtype(site.fn, callee[4][0], None)[0]["s"] if name.endswith("::parse") and callee[4] else ""
        if name.endswith("::parse") and not t.endswith("Decimal"):
            return None
        if v[0] != "s":
            return None
        # (the library also takes underscores, and exponents in another function)
        ok = re.fullmatch(r"[+-]?([0-9][0-9_]*\.?[0-9_]*|\.[0-9][0-9_]*)", v[1])
        x = v[1].replace("_", "").lstrip("+")
        return [(Ok(dec(("0" if x[:1] == "." else "") + x)) if ok else Err(("s", "BAD")), s)]

    def h_fl(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(("fl", repr(float(v[1]))), s)] if v[0] in ("i", "fl") else None

    def h_bits(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(("s", "bits " + v[1]), s)] if v[0] == "fl" else None

    def h_intabs(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(("i", abs(v[1])), s)] if v[0] == "i" else None
    return [(r"(Decimal|FromPrimitive).*::from_([iuf]\d+|[iu]size)$", h_from), (r"rust_decimal.*(PartialEq|PartialOrd|Ord)(<.*>)?>::\w+$", h_cmp), (r"Decimal.*::(normalize|abs|scale|trunc|to_f64)$", h_un), (r"ToString>?::to_string$", h_str),
            (r"impl str>::parse$|rust_decimal.*::from_str(_exact)?$", h_parse), (r"convert::num::<impl core::convert::From<\w+> for f(32|64)>::from$", h_fl), (r"f(32|64)>::to_bits$", h_bits),
            (r"<impl [iu]\w+>::(abs|unsigned_abs)$", h_intabs)] + IRIS


def one(outs, f=lambda v: v):
    r = {f(o[0]) for o in outs or ()}
    return r.pop() if len(r) == 1 else tuple(sorted(map(str, r)))


def fn(P, rx, kind=None):
    c = [f for f in P.fns.values() if f.kind in ("fn", "method") and re.search(rx, f.id)]
    return c[0] if len(c) == 1 else None


LEX = ["", "0", "-0", "+0", "00", "-00", "1", "+1", "-1", "007", "++5", "+-0", "-+0", "--1", "+", "-", "x", "1x", "x1", "1.0", "1.", ".5", "1.5", "-1.5", "+1.5", ".", "1e3", "1E3", "1e", " 1", "1 ", "\n1", "1_0", "0x1F", "\u0661",
       "true", "false", "TRUE", "True", "t", "INF", "-INF", "+INF", "NaN", "inf", "-inf", "Infinity", "infinity", "nan", "-NaN", "+NaN", "iNF"] + \
      [str(b + d) for b in (-2**63, 2**63 - 1, -2**31, 2**31 - 1, -2**15, 2**15 - 1, -128, 127, 255, 2**16 - 1, 2**32 - 1, 2**64 - 1) for d in (-1, 0, 1)]


def spaces(c, P):
    rid = "lexical spaces"
    c.rule(rid, "a typed literal is checked against the lexical space and the range of its datatype: well-formed gives its value in that datatype, ill-formed is reported as such with its lexical form and datatype; an unknown datatype is not checked")
    f = fn(P, r"ConcreteLiteral::into_checked_literal$")
    if not anch(c, rid, f, "ConcreteLiteral::into_checked_literal"):
        return

    def h_dt(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(Ok(("a", "DT", "", (v,))) if v == ("s", "2020-01-01T00:00:00Z") else Err(("s", "BADDATE")), s)]
    m = M(P, [(r"oxsdatatypes.*DateTime.*::from_str$", h_dt)] + decs())
    NUMERAL = {"decimal": r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", "double": r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|INF|-INF|NaN"}
    NUMERAL["float"] = NUMERAL["double"]

    def show(v):
        if v[0] != "a" or v[2] != "Ok":
            return "error"
        v = v[3][0]
        if v[2] == "WrongDatatypeLiteral":
            return ("ill-formed", v[3][0][1:], v[3][1][3][0][1:])
        if v[2] == "NumericLiteral":
            n = v[3][0]
            x = n[3][0]
            return (n[2], Fraction(x[3][0][1]) if x[0] == "a" else x[1] if x[0] != "fl" else repr(float(x[1])))
        return (v[2],) + tuple(x[1] if x[0] in ("b", "s") else str(x) for x in v[3][:1])
    for k, name in list(NAMES.items()) + [("Boolean", "boolean"), ("Datetime", "dateTime")]:
        rows = []
        for s in LEX + ["2020-01-01T00:00:00Z", "2020-01-01"]:
            want = ("ill-formed", (s,), (XSD + name,))
            if k in INTS:
                _, lo, hi = INTS[k]
                if re.fullmatch(r"[+-]?[0-9]+", s, re.A) and "\n" not in s:
                    x = int(s)
                    if (lo is None or x >= lo) and (hi is None or x <= hi):
                        want = (k, x)
            elif name in NUMERAL:
                if re.fullmatch(NUMERAL[name], s) and "\n" not in s:
                    if s == "1." or s == ".5":
                        continue        # whether the library takes them
                    want = (k, Fraction(s) if k == "Decimal" else repr(float(s)))
            elif k == "Boolean":
                if s in ("true", "false", "0", "1"):
                    want = ("BooleanLiteral", s in ("true", "1"))
            elif s == "2020-01-01T00:00:00Z":
                want = ("DatetimeLiteral", str(("a", "DT", "", (("s", s),))))
            got = one(m.call(f, dtl(s, XSD + name)), show)
            if k == "Datetime" and isinstance(got, tuple) and got[0] == "DatetimeLiteral":
                got = ("DatetimeLiteral", want[1]) if len(want) == 2 and "2020-01-01T00:00:00Z" in got[1] else got
            rows.append(('"%s"^^xsd:%s' % (s, name), got, want))
        table(c, rid, name, f, "xsd:" + name, rows)
    rows = []
    for d in ("http://e/d", XSD + "date", XSD + "anyURI", XSD + "token", "http://e/integer", XSD + "Integer", XSD[:-1] + "/integer"):
        for s in ("x", "1", ""):
            rows.append(('"%s"^^<%s>' % (s, d), one(m.call(f, dtl(s, d))), Ok(dtl(s, d))))
    for d, v in (("string", strl("x")), ("language string", strl("x", "en")), ("number", nlit("Integer", 1)), ("boolean", lit("BooleanLiteral", TRUE)), ("ill-formed literal", wrong("x", XSD + "integer"))):
        rows.append((d, one(m.call(f, v)), Ok(v)))
    table(c, rid, "other", f, "literals with no lexical space to check", rows)


SAMPLE = {}
for _k, (_n, _lo, _hi) in INTS.items():
    SAMPLE[_k] = sorted({x for x in (-2, -1, 0, 1, 2, 3, _lo, _hi) if x is not None and (_lo is None or x >= _lo) and (_hi is None or x <= _hi)})
SAMPLE["Integer"] += [2**64, -2**64, 2**100]
SAMPLE["NonNegativeInteger"] += [2**100]
SAMPLE["NegativeInteger"] += [-2**100]
SAMPLE["Decimal"] = ["-2", "0", "0.3", "1.0", "1.5", "1.50", "2.25", "255.0"]
SAMPLE["Double"] = ["-2.0", "0.0", "1e-29", "2e-29", "0.3", "0.30000000000000004", "1.0", "1.5", "2.25", "inf", "-inf", "nan", "1e300", "1.0000000000000002e300"]
SAMPLE["Float"] = ["-2.0", "0.0", "1e-30", "1.5", "16777216.0", "16777218.0", "inf", "nan"]


def value(k, v):
    if isinstance(v, int):
        return Fraction(v)
    if v == "nan":
        return None
    return float(v) if "inf" in v else Fraction(v)


def exact(k, v):
    return float(v) if "inf" in str(v) else Fraction(float(v)) if k in ("Double", "Float") else Fraction(v)


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", float(x)))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def order(c, P):
    rid = "order"
    c.rule(rid, "two numbers are compared by value whatever their datatypes (not a number is not comparable); datatyped literals are compared by value, by lexical form when of the same unknown datatype; different kinds of literals, "
                "and ill-formed ones, are not comparable")
    NLs = re.escape(A["NL"] or "?")
    fs = {"partial_cmp": fn(P, "^<%s as core::cmp::PartialOrd>::partial_cmp$" % NLs), "less_than": fn(P, "^%s::less_than$" % NLs), "less_than_or_eq": fn(P, "^%s::less_than_or_eq$" % NLs), "eq": fn(P, "^<%s as core::cmp::PartialEq>::eq$" % NLs)}
    m = M(P, decs())
    vals = [(k, v) for k, vs in SAMPLE.items() for v in vs]
    for name, f in fs.items():
        if not anch(c, rid, f, "NumericLiteral::" + name):
            continue
        rows, beyond = [], []
        for (k, v), (k2, v2) in itertools.product(vals, vals):
            x, y = value(k, v), value(k2, v2)
            cmp_ = None if x is None or y is None else (x > y) - (x < y)
            if cmp_ is not None and {k, k2} & {"Double", "Float"}:
                # (the number as it is against the number as a double or float: no demand where these differ)
                t = float if "Double" in (k, k2) else f32
                a, b = (t(exact(q, u)) for q, u in ((k, v), (k2, v2)))
                if (a > b) - (a < b) != (exact(k, v) > exact(k2, v2)) - (exact(k, v) < exact(k2, v2)):
                    continue
                cmp_ = (a > b) - (a < b)
            close = cmp_ and {k, k2} & {"Double", "Float"} and x - y == x - y and abs(x - y) < max(abs(x), abs(y), 10**-14) * Fraction(1, 10**14)
            if close:
                if name == "partial_cmp" and k == k2 == "Double":
                    beyond.append(("%s with %s" % (v, v2), one(m.call(f, num(k, v), num(k2, v2))), Some(ordv(cmp_))))
                continue
            if name == "eq":
                big = any(abs(z) >= 2**96 for z in (x, y) if z is not None)
                if x is None or y is None or (big and k != k2):
                    continue
                want = ("b", cmp_ == 0)
            elif name == "partial_cmp":
                want = NONE if cmp_ is None else Some(ordv(cmp_))
            else:
                want = ("b", cmp_ is not None and (cmp_ < 0 or cmp_ == 0 and name == "less_than_or_eq"))
            rows.append(("%s %s with %s %s" % (NAMES[k], v, NAMES[k2], v2), one(m.call(f, num(k, v), num(k2, v2))), want))
        table(c, rid, name, f, "comparison of numbers (%s)" % name, rows)
        if name == "partial_cmp":
            table(c, rid, "doubles that differ beyond 15 digits", f, "comparison of doubles", beyond)
    CLs = re.escape(A["CL"] or "?")
    f = fn(P, "^<%s as core::cmp::PartialOrd>::partial_cmp$" % CLs)
    if not anch(c, rid, f, "ConcreteLiteral::partial_cmp"):
        return

    def h_dt(I, site, name, callee, args, s):
        a, b = (I.deref(x, s) for x in args[:2])
        return [(Some(ordv((str(a) > str(b)) - (str(a) < str(b)))), s)]

    def h_new(I, site, name, callee, args, s):
        return [(Ok(("a", "DT", "", (I.deref(args[0], s),))), s)]
    m = M(P, [(r"DateTime.* as core::cmp::PartialOrd>::partial_cmp$", h_dt), (r"XsdDateTime::new$|oxsdatatypes.*DateTime.*::from_str$", h_new)] + decs())
    dt = lambda s: lit("DatetimeLiteral", ("a", "DT", "", (("s", s),)))
    N = lambda k, v: ("number", value(k, v))
    ls = [("a", strl("a"), ("string", "a")), ("b", strl("b"), ("string", "b")), ("true", lit("BooleanLiteral", TRUE), ("boolean", 1)), ("false", lit("BooleanLiteral", FALSE), ("boolean", 0)),
          ("date 1", dt("2020"), ("date", "2020")), ("date 2", dt("2021"), ("date", "2021")), ("1 (integer)", nlit("Integer", 1), ("number", 1)), ("2 (byte)", nlit("Byte", 2), ("number", 2)), ("1.5 (decimal)", nlit("Decimal", "1.5"), ("number", Fraction("1.5"))),
          ("NaN", nlit("Double", "nan"), None), ('"2"^^integer', dtl("2", XSD + "integer"), ("number", 2)), ('"10"^^long', dtl("10", XSD + "long"), ("number", 10)), ('"10"^^unsignedByte', dtl("10", XSD + "unsignedByte"), ("number", 10)),
          ('"1.50"^^decimal', dtl("1.50", XSD + "decimal"), ("number", Fraction("1.5"))), ('"true"^^boolean', dtl("true", XSD + "boolean"), ("boolean", 1)), ('"x"^^integer', dtl("x", XSD + "integer"), None), ("ill-formed", wrong("x", XSD + "integer"), None),
          ("ill-formed 2", wrong("y", XSD + "integer"), None), ('"a"^^d', dtl("a", "http://e/d"), ("d", "a")), ('"b"^^d', dtl("b", "http://e/d"), ("d", "b")), ('"a"^^d2', dtl("a", "http://e/d2"), ("d2", "a"))]
    rows = []
    for (d, v, k), (d2, v2, k2) in itertools.product(ls, ls):
        comparable = k is not None and k2 is not None and k[0] == k2[0]
        want = Some(ordv((k[1] > k2[1]) - (k[1] < k2[1]))) if comparable else NONE
        rows.append(("%s with %s" % (d, d2), one(m.call(f, v, v2)), want))
    table(c, rid, "literals", f, "comparison of literals", rows)


def identity(c, P):
    rid = "identity"
    c.rule(rid, "a literal of a value set matches exactly the literals of the data with its lexical form, datatype and language; the accessors and the conversions from and to the data keep them")
    f = fn(P, r"ConcreteLiteral::match_literal$")
    dates = [(r"DateTime.* as core::cmp::PartialEq>::eq$", lambda I, site, name, callee, args, s: [(("b", I.deref(args[0], s) == I.deref(args[1], s)), s)])]

    H = [(r"ToString>?::to_string$", h_show), (r"NumericLiteral::lexical_form$", h_show)] + dates + decs()
    m = M(P, H)
    reps = {"string": [strl("a"), dtl("a", XSD + "string")], "string b": [strl("b"), dtl("b", XSD + "string")], "string 1": [strl("1"), dtl("1", XSD + "string")], "string true": [strl("true")], "a@en": [strl("a", "en")], "a@fr": [strl("a", "fr")], "b@en": [strl("b", "en")],
            "d": [dtl("a", "http://e/d")], "d b": [dtl("b", "http://e/d")], "d2": [dtl("a", "http://e/d2")], "int": [dtl("1", XSD + "integer")], "int 01": [dtl("01", XSD + "integer")], "byte": [dtl("1", XSD + "byte")],
            "decimal": [dtl("1.0", XSD + "decimal")], "bad": [dtl("x", XSD + "integer"), wrong("x", XSD + "integer")], "bad y": [wrong("y", XSD + "integer")], "bad byte": [wrong("x", XSD + "byte")],
            "true": [lit("BooleanLiteral", TRUE), dtl("true", XSD + "boolean")], "false": [lit("BooleanLiteral", FALSE), dtl("false", XSD + "boolean")], "true d": [dtl("true", "http://e/d")]}
    if anch(c, rid, f, "ConcreteLiteral::match_literal"):
        rows = []
        for (k, vs), (k2, vs2) in itertools.product(reps.items(), reps.items()):
            for v, v2 in itertools.product(vs, vs2):
                rows.append(("%s %s with %s %s" % (v[2], k, v2[2], k2), one(m.call(f, v, v2)), ("b", k == k2)))
        table(c, rid, "match", f, "literals of a value set", rows)
    # accessors
    cases = [(strl("a\u00e9"), "a\u00e9", XSD + "string", None), (strl("a", "en"), "a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "en"), (strl("a", "en-US"), "a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "en-US"), (dtl("01", XSD + "byte"), "01", XSD + "byte", None), (wrong("x", XSD + "int"), "x", XSD + "int", None),
             (lit("BooleanLiteral", TRUE), "true", XSD + "boolean", None), (lit("BooleanLiteral", FALSE), "false", XSD + "boolean", None)] + \
            [(nlit(k, SAMPLE[k][1]), str(SAMPLE[k][1]) if k not in ("Double", "Float") else "lex " + repr(float(SAMPLE[k][1])), XSD + n, None) for k, n in NAMES.items()]
    for owner, wrap in (("CL", lambda v: v), ("OBJ", olit)):
        for name in ("lexical_form", "datatype", "lang", "numeric_value", "length"):
            g = fn(P, r"^%s::%s$" % (re.escape(A[owner] or "?"), name))
            if g is None and (owner, name) in (("OBJ", "lexical_form"), ("CL", "length")):
                continue
            if not anch(c, rid, g, "%s::%s" % (owner, name)):
                continue
            rows = []
            for v, lx, d, lg in cases:
                if name == "length":
                    if v[2] in ("NumericLiteral", "BooleanLiteral"):
                        continue
                    want = ("i", len(lx))
                elif name == "lexical_form":
                    want = ("s", lx)
                elif name == "datatype":
                    want = iref(d)
                elif name == "lang":
                    want = Some(lang(lg)) if lg else NONE
                else:
                    want = Some(v[3][0]) if v[2] == "NumericLiteral" else NONE
                got = one(m.call(g, wrap(v)))
                if owner == "OBJ" and name == "datatype":
                    want = Some(want)
                rows.append(("%s %s" % (v[2], lx), got, want))
            if owner == "OBJ":
                for d, o, n in (("IRI", obj("Iri", ("s", "http://e/a\u00e9")), 11), ("blank node", obj("BlankNode", ("s", "b1")), 2)):
                    rows.append((d, one(m.call(g, o)), ("i", n) if name == "length" else NONE))
            table(c, rid, "%s %s" % ({"CL": "literal", "OBJ": "object"}[owner], name), g, name + " of a literal", rows)
    # conversions
    frm = fn(P, r"<%s as core::convert::TryFrom<oxrdf::literal::Literal>>::try_from$" % re.escape(A["CL"] or "?"))
    to = fn(P, r"impl core::convert::From<%s> for oxrdf::literal::Literal>::from$" % re.escape(A["CL"] or "?"))
    XS = XSD + "string"

    def h_destruct(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        l, d, g = v[3]
        return [(("t", (l, NONE if d in (("s", XS), NONE) or g != NONE else Some(d), g, NONE)), s)]

    def voc(I, v):
        """the constants of the vocabulary of the RDF library"""
        t = I.tag(v) if v[0] == "y" else ()
        if t[:1] == ("const",) and t[1].startswith("oxrdf::vocab::xsd::"):
            n = t[1].rsplit("::", 1)[1].lower().split("_")
            n = "dateTime" if n == ["date", "time"] else n[0] + "".join(x.capitalize() for x in n[1:])
            return ("s", XSD + n)
        return v

    def h_mk(I, site, name, callee, args, s):
        n = name.rsplit("::", 1)[1]
        v = [voc(I, I.deref(x, s)) for x in args]
        if n == "new_typed_literal":
            return [(oxl(v[0], v[1], NONE), s)]
        if n.startswith("new_language"):
            return [(oxl(v[0], ("s", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"), Some(v[1])), s)]
        return [(oxl(v[0], ("s", XS), NONE), s)]

    def h_into(I, site, name, callee, args, s):
        if len(callee[4]) < 2 or "oxrdf::literal::Literal" not in I.gtype(site.fn, callee[4][1], None)[0]["s"]:
            return None
        return h_conv(I, site, "From<%s> for" % I.gtype(site.fn, callee[4][0], None)[0]["s"], callee, args, s)

    def h_conv(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        t = re.search(r"From<(.*?)> for", name) or re.search(r"From<(.*)>>::from$", name)
        t = t.group(1).rsplit("::", 1)[-1] if t else ""
        d = {"String": "string", "&str": "string", "str": "string", "i128": "integer", "i64": "integer", "i32": "integer", "i16": "integer", "u64": "integer", "u32": "integer", "u16": "integer", "f64": "double", "f32": "float", "bool": "boolean", "DateTime": "dateTime"}.get(t)
        if d is None:
            return None
        r = h_show(I, site, name, callee, args, s)
        return [(oxl(r[0][0], ("s", XSD + d), NONE), s)] if r else None
    conv = [(r"oxrdf::(literal::)?Literal::destruct$", h_destruct), (r"oxrdf::(literal::)?Literal::new_\w+$", h_mk), (r"<oxrdf::(literal::)?Literal as core::convert::From<(?!.*rudof).*>>::from$", h_conv), (r"core::convert::Into(<.*>)?>?::into$", h_into),
            (r"Lang::new$", lambda I, site, name, callee, args, s: [(Ok(lang(I.deref(args[0], s)[1])), s)] if I.deref(args[0], s)[0] == "s" else None),
            (r"NamedNode.*::from$|IriS.*::from$", ident)]
    m = M(P, [(r"XsdDateTime::new$|oxsdatatypes.*DateTime.*::from_str$", lambda I, site, name, callee, args, s: [(Ok(("a", "DT", "", (I.deref(args[0], s),))) if I.deref(args[0], s)[1] not in ("", "x") else Err(("s", "DATE")), s)])] + conv + H)
    terms = [("a", XS, None), ("", XS, None), ("a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "en"), ("01", XSD + "integer", None), ("1.50", XSD + "decimal", None), ("1e0", XSD + "double", None), ("+1", XSD + "byte", None), ("x", XSD + "integer", None),
             ("300", XSD + "byte", None), ("a", "http://e/d", None), ("2020-01-01T00:00:00Z", XSD + "dateTime", None), ("true", XSD + "boolean", None), ("false", XSD + "boolean", None), ("maybe", XSD + "boolean", None), ("a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "en-US")]
    terms += [("", XSD + n, None) for n in list(NAMES.values()) + ["boolean", "dateTime"]] + [("", "http://e/d", None)] + [("x", XSD + n, None) for n in NAMES.values()]
    bad = {("300", XSD + "byte"), ("maybe", XSD + "boolean")} | {(x, XSD + n) for n in list(NAMES.values()) + ["boolean", "dateTime"] for x in ("", "x")}
    acc = {n: fn(P, r"^%s::%s$" % (re.escape(A["CL"] or "?"), n)) for n in ("lexical_form", "datatype", "lang")}
    if anch(c, rid, frm, "TryFrom<oxrdf::Literal> for ConcreteLiteral") and all(acc.values()):
        rows = []
        for l, d, g in terms:
            v = one(m.call(frm, oxl(("s", l), ("s", d), Some(("s", g)) if g else NONE)))
            got = "error"
            if v[0] == "a" and v[2] == "Ok":
                got = tuple(one(m.call(acc[n], v[3][0])) for n in ("lexical_form", "datatype", "lang")) + ("ill-formed" if v[3][0][2].startswith("Wrong") else "well-formed",)
            rows.append(('"%s"^^<%s>@%s' % (l, d, g), got, (("s", l), iref(d), Some(lang(g)) if g else NONE, "ill-formed" if (l, d) in bad else "well-formed")))
        table(c, rid, "from the data", frm, "conversion of a literal of the data", rows)
    if anch(c, rid, to, "From<ConcreteLiteral> for oxrdf::Literal"):
        rows = []
        for v, lx, d, lg in cases:
            got = one(m.call(to, v))
            want = oxl(("s", lx), ("s", d), Some(("s", lg)) if lg else NONE)
            if isinstance(got, tuple) and len(got) == 4 and got[0] == "a" and got[3][2] != NONE:
                x = got[3][2][3][0]
                got = got[:3] + ((got[3][0], got[3][1], Some(x[3][0] if x[0] == "a" else x)),)
            rows.append(("%s %s" % (v[2], lx), got, want))
        table(c, rid, "to the data", to, "conversion of a literal to the data", rows)
    # compiled schemas
    tag = fn(P, r"Tagged as core::convert::From<&%s>>::from$" % re.escape(A["NL"] or "?"))
    untag = fn(P, r"<%s as core::convert::TryFrom<.*Tagged>>::try_from$" % re.escape(A["NL"] or "?"))
    if anch(c, rid, tag, "numbers written to a compiled schema") and anch(c, rid, untag, "numbers read from a compiled schema"):
        m = M(P, decs())
        rows = []
        for k, vs in SAMPLE.items():
            for v in vs[:4]:
                t = one(m.call(tag, num(k, v)))
                rows.append(("%s %s" % (NAMES[k], v), one(m.call(untag, t)) if len(t) == 4 else t, Ok(num(k, v))))
        table(c, rid, "cache", untag, "numbers of a compiled schema", rows)


def digits(c, P):
    rid = "digits"
    c.rule(rid, "the digits of a number are those of its canonical form, without sign, point, and leading and trailing zeros; floating-point numbers have none to count")
    m = M(P, decs() + [(r"NOPE", None)])
    for name in ("total_digits", "fraction_digits"):
        f = fn(P, r"^%s::%s$" % (re.escape(A["NL"] or "?"), name))
        if not anch(c, rid, f, "NumericLiteral::" + name):
            continue
        rows = []
        smp = dict(SAMPLE)
        smp["Decimal"] = ["0", "0.0", "1.0", "1.5", "-1.50", "0.05", "-0.05", "10", "100.010", "12.30", "255.0", "0.10"]
        for k, vs in smp.items():
            for v in vs + ([12, 120, 1234567] if k in ("Integer", "Long", "Int", "NonNegativeInteger", "PositiveInteger", "UnsignedLong", "UnsignedInt") else [-12, -100] if k in ("NegativeInteger", "NonPositiveInteger") else []):
                if k in ("Double", "Float"):
                    want = NONE
                else:
                    a, _, b = canon(str(v)).lstrip("-").partition(".")
                    n = len(b) if name == "fraction_digits" else len((a if a != "0" or not b else "") + b)
                    want = Some(("i", n))
                rows.append(("%s %s" % (NAMES[k], v), one(m.call(f, num(k, v))), want))
        table(c, rid, name, f, name.replace("_", " "), rows)


def run(c):
    P = c.prog
    resolve(P)
    spaces(c, P)
    order(c, P)
    identity(c, P)
    digits(c, P)
