"""P24: names denote what the prefixes and the base declare"""
import re
from vf.table import *

TITLE = "Prefixed names and relative IRIs denote what prefixes and base declare"

PMAP = "prefixmap::prefix_map::PrefixMap"
IRIREF = "prefixmap::iri::iri_ref::IriRef"
IRIS_ADT = "rudof_iri::iri::iris::IriS"
LITERAL = "rudof_rdf::rdf_core::term::literal::literal::ConcreteLiteral"
s = lambda x: ("s", x)
NONE = ("a", "core::option::Option", "None", ())
some = lambda v: ("a", "core::option::Option", "Some", (v,))
ok = lambda v: ("a", "core::result::Result", "Ok", (v,))
err = lambda v: ("a", "core::result::Result", "Err", (v,))
L = lambda xs: ("L", tuple(xs))
GONE = ("no value",)


def urljoin(base, x):
    """RFC 3986, 5.2"""
    rx = r"^(?:([A-Za-z][A-Za-z0-9+.-]*):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$"
    b, r = re.match(rx, base, re.S).groups(), re.match(rx, x, re.S).groups()
    if r[0] is not None:
        return x
    if r[1] is not None:
        sc, au, pa, qu = b[0], r[1], dots(r[2]), r[3]
    elif r[2] == "":
        sc, au, pa, qu = b[0], b[1], b[2], r[3] if r[3] is not None else b[3]
    else:
        sc, au, qu = b[0], b[1], r[3]
        pa = dots(r[2] if r[2].startswith("/") else ("/" + r[2] if b[1] is not None and b[2] == "" else b[2][:b[2].rfind("/") + 1] + r[2]))
    return (sc + ":" if sc is not None else "") + ("//" + au if au is not None else "") + pa + ("?" + qu if qu is not None else "") + ("#" + r[4] if r[4] is not None else "")


def dots(p):
    out, ss = [], p.split("/")
    for i, x in enumerate(ss):
        if x == "..":
            if len(out) > 1:
                out.pop()
        elif x != ".":
            out.append(x)
        if x in (".", "..") and i == len(ss) - 1:
            out.append("")
    return "/".join(out)


def iris(x):
    return ("a", IRIS_ADT, "", (s(x),))


def absolute(x):
    return re.match(r"^[A-Za-z][A-Za-z0-9+.-]*:[^ <>\"{}|\\^`]*$", x) is not None


def text(I, v, st):
    v = I.deref(v, st)
    while v and v[0] == "a" and v[1] == IRIS_ADT:
        v = I.deref(v[3][0], st)
    return v[1] if v and v[0] == "s" else None


def handlers():
    """the libraries of IRIs: a NamedNode, an Iri and a Url are their text"""
    def h_new(I, site, name, callee, a, st):
        x = text(I, a[0], st)
        if x is None:
            return None
        return [(ok(s(x)) if absolute(x) else err(("a", "IriParseError", "", (s(x),))), st)]

    def h_resolve(I, site, name, callee, a, st):
        b, x = text(I, a[0], st), text(I, a[1], st)
        if b is None or x is None:
            return None
        y = x if re.match(r"^[A-Za-z][A-Za-z0-9+.-]*:", x) else urljoin(b, x)
        return [(ok(s(y)) if " " not in y else err(("a", "IriParseError", "", (s(y),))), st)]

    def same(I, site, name, callee, a, st):
        return [(a[0], st)]

    return [(r"NamedNode(<.*>)?::new$|oxiri::Iri(<.*>)?::parse$|Iri::<.*>::parse$", h_new),
            (r"oxiri::.*Iri.*::resolve$", h_resolve),
            (r"NamedNode(Ref)?(<.*>)?::(new_unchecked|as_str|into_string)$|oxiri::.*Iri.*::(as_str|into_inner)$|Iri(<.*>)?::as_str$", same),
            (r"colored::.*Colorize>::(color|red|blue|bold|normal)$|ColoredString as core::convert::From<.*>>::from$|colored::Colorize::color$", same)]


class M:
    def __init__(self, P):
        self.P = P
        self.I = new_interp(P, handlers(), seq_cap=64, int_cap=100000, inline_display=True, max_depth=60)

    def run(self, f, args, cells=()):
        self.I.memo.clear()
        self.I.steps = 0
        outs = []
        for o in self.I.exec_fn(f, tuple(args), tuple(cells), {}, (), ()):
            r = (o[0], None)
            if r not in outs:
                outs.append(r)
        return outs

    def pm(self, ds, **over):
        ad = self.P.adts[PMAP]["v"][0]
        kw = {"map": L(("t", (s(a), iris(n))) for a, n in ds)}
        kw.update(over)
        return ("a", PMAP, "", tuple(kw.get(n, ("b", False) if n == "hyperlink" else NONE) for n, _ in ad["f"]))

    def ds(self, v):
        """the declarations of a prefix map"""
        ad = [n for n, _ in self.P.adts[PMAP]["v"][0]["f"]]
        if not v or v[0] != "a" or v[1] != PMAP:
            return None
        m = v[3][ad.index("map")]
        if m[0] != "L":
            return None
        out = []
        for e in m[1]:
            if e[0] != "t" or e[1][0][0] != "s" or e[1][1][0] != "a" or e[1][1][3][0][0] != "s":
                return None
            out.append((e[1][0][1], e[1][1][3][0][1]))
        return tuple(out)


def ref(x):
    """'p|l' is a prefixed name"""
    if "|" in x:
        p, l = x.split("|", 1)
        return ("a", IRIREF, "Prefixed", (s(p), s(l)))
    return ("a", IRIREF, "Iri", (iris(x),))


def outcome(r):
    """("ok", v), ("error",) or ("?", …)"""
    if r and r[0] == "a" and r[1] == "core::result::Result":
        return ("ok", r[3][0]) if r[2] == "Ok" else ("error",)
    return ("?", r)


def unwrap(v):
    """Cow is its content; IriS its text"""
    while v and v[0] == "a" and (v[1].endswith("::Cow") or v[1] == IRIS_ADT):
        v = v[3][0]
    return v[1] if v and v[0] == "s" else None


# ---- the rules
NS = ["http://e/", "http://e#", "http://e/q=", "urn:x:", "http://e/a", "http://e/doc?", "mailto:"]
LOCALS = ["a", "", "a:b", "b/c", "0", "%41", "a.b", "#f"]


def one(P, rx):
    c = [f for k, f in P.fns.items() if re.search(rx, k)]
    return c[0] if len(c) == 1 else None


def anchors(c, P):
    need = {}
    for n in ("resolve", "resolve_prefix_local", "resolve_iriref", "qualify", "qualify_optional", "qualify_and_length", "add_prefix", "find", "remove_prefix", "merge"):
        f = P.fns.get(PMAP + "::" + n)
        if f is None:
            c.anchor("resolve", n, [], "PrefixMap::" + n)
        need[n] = f
    f = P.fns.get(IRIREF + "::get_iri_prefixmap")
    if f is None:
        c.anchor("resolve", "get_iri_prefixmap", [], "IriRef::get_iri_prefixmap")
    need["get_iri_prefixmap"] = f
    return need


def resolve(c, P, F):
    m = M(P)
    decls = [[("", n), ("p", "http://other/"), ("p2", "http://third#")] for n in NS] + [[("p", n), ("pp", "http://other/"), ("", "http://third#")] for n in NS]
    for ds in decls:
        alias, ns = ds[0]
        pm = m.pm(ds)
        for l in LOCALS:
            want = ("ok", ns + l) if absolute(ns + l) else ("error",)
            other = [(d, ("ok", n + l)) for d, n in ds[1:]]
            for a, w in [(alias, want)] + (other if ns == NS[0] else []) + [("none", ("error",)), (alias + "x", ("error",))]:
                cases = [("resolve", (pm, s(a + ":" + l))), ("resolve_prefix_local", (pm, s(a), s(l))), ("resolve_iriref", (pm, ("a", IRIREF, "Prefixed", (s(a), s(l))))),
                         ("get_iri_prefixmap", (("a", IRIREF, "Prefixed", (s(a), s(l))), pm))]
                for n, args in cases:
                    f = F[n]
                    if f is None:
                        continue
                    got = sorted({(lambda o: ("ok", unwrap(o[1])) if o[0] == "ok" else o)(outcome(r)) for r, _ in m.run(f, args)}, key=repr)
                    c.ob("resolve", "%s of %s:%s where %s: is <%s>" % (n, a, l, alias, ns), f.where(), got == [w],
                         "%s of the name %s:%s with %s gives %s instead of %s" % (n, a, l, ", ".join("%s: <%s>" % d for d in ds), short(m, got), w))
    pm = m.pm([("p", "http://e/")])
    for n, args in (("resolve_iriref", (pm, ref("http://z/a"))), ("get_iri_prefixmap", (ref("http://z/a"), pm))):
        if F[n] is not None:
            got = sorted({(lambda o: ("ok", unwrap(o[1])) if o[0] == "ok" else o)(outcome(r)) for r, _ in m.run(F[n], args)}, key=repr)
            c.ob("resolve", "%s of an absolute IRI" % n, F[n].where(), got == [("ok", "http://z/a")], "%s of <http://z/a> gives %s" % (n, short(m, got)))


def short(m, got):
    return "; ".join(g[0] + (" " + (repr(g[1]) if isinstance(g[1], str) else repr(g[1])[:120]) if len(g) > 1 else "") for g in got)[:200]


PN_CHARS_BASE = "A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF"
PN_CHARS_U = PN_CHARS_BASE + "_"
PN_CHARS = PN_CHARS_U + "0-9\u00B7\u0300-\u036F\u203F-\u2040" + r"\-"
PLX = r"%[0-9A-Fa-f]{2}|\\[_~.\-!$&'()*+,;=/?#@%]"
PN_LOCAL = re.compile("^(?:[%s:0-9]|%s)(?:(?:[%s.:]|%s)*(?:[%s:]|%s))?$" % (PN_CHARS_U, PLX, PN_CHARS, PLX, PN_CHARS, PLX))


def denotes(txt, ds):
    """the IRI that a name in a document with these declarations denotes, and its namespace, or None"""
    if txt.startswith("<") and txt.endswith(">") and not re.search(r"[<>\" {}|\\^`]", txt[1:-1]):
        return txt[1:-1], None
    p, colon, l = txt.partition(":")
    if not colon or p not in dict(ds) or (l and not PN_LOCAL.match(l)):
        return None
    return dict(ds)[p] + re.sub(r"\\(.)", r"\1", l), dict(ds)[p]


TEXTS = ["a", "", "a/b", "a#b", "a:b", "a.", ".a", "a.b", "-a", "a-b", "0a", "%41", "%4", "%zz", "a%20b", "a?b", "a=b", "(a)", "é", "a\u00b7b", "\u00b7a", "a~", "a,b", "_a", "a&b", "a@b", "a;b", "a'b", "a+b", "a$", "a*", "a!",
         "a\u2040b", "\u2040b", "\u0300a", "a\u0300", "\u00d7", "a\u00d7", "\u037e", "\u2190", "\u2fff", "\u3000", "a\u3001", "\ufdd0", "\ufffd", "\U00010000", "\U000f0000", ":", "a:", "..", "a..b"]


def qualify(c, P, F):
    m = M(P)
    decls = [("one", [("e", "http://e/")]), ("empty alias", [("", "http://e/")]), ("nested", [("a", "http://e/"), ("b", "http://e/a"), ("c", "http://e/a/"), ("d", "http://")]),
             ("nested, longest first", [("c", "http://e/a/"), ("b", "http://e/a"), ("a", "http://e/")]), ("others", [("x", "http://x/"), ("y", "http://e/zz")]), ("none", []), ("two aliases", [("x", "http://e/"), ("y", "http://e/")])]
    for dn, ds in decls:
        for t in TEXTS:
            x = "http://e/" + t
            cover = [n for _, n in ds if x.startswith(n)]
            best = max(cover, key=len) if cover else None
            local = x[len(best):] if best else None
            short_ = best is not None and (local == "" or PN_LOCAL.match(local) and "\\" not in local)
            for rich in (False, True):
                pm = m.pm(ds, **({"hyperlink": ("b", True)} if rich else {}))
                for n in ("qualify", "qualify_optional", "qualify_and_length"):
                    f = F[n]
                    if f is None:
                        continue
                    for r, _ in m.run(f, (pm, iris(x))):
                        length = None
                        if n == "qualify_optional":
                            if r == NONE:
                                got = None
                            else:
                                got = r[3][0] if r[0] == "a" and r[2] == "Some" else ("?",)
                        elif n == "qualify_and_length":
                            got, length = r[1] if r[0] == "t" else (("?",), None)
                        else:
                            got = r
                        got = got[1] if got and got[0] == "s" else (None if got is None else "?")
                        bad = None
                        shown = got
                        if got is not None and got.startswith("\x1b]8;;"):
                            mm = re.match("^\x1b\\]8;;(.*?)\x1b\\\\(.*)\x1b\\]8;;\x1b\\\\$", got, re.S)
                            if not rich or not mm or mm.group(1) != x:
                                bad = "is shown with the link %r" % got
                            else:
                                shown = mm.group(2)
                        if bad is None:
                            if shown is None:
                                bad = "is not written although %s can be" % local if short_ else None
                            else:
                                d = denotes(shown, ds)
                                if shown == "<%s>" % x:
                                    bad = ("is written in full although it has a prefixed name" if short_ else None) if n != "qualify_optional" else "is written in full"
                                elif d is None:
                                    bad = "is written %r, which is no name" % shown
                                elif d[0] != x:
                                    bad = "is written %r, which denotes <%s>" % (shown, d[0])
                                elif d[1] != best:
                                    bad = "is written %r, with the namespace <%s> although <%s> is longer" % (shown, d[1], best)
                        if bad is None and n == "qualify_and_length" and all(ord(ch) < 128 for ch in x) and length != ("i", len(shown)):
                            bad = "is written %r with the length %r" % (shown, length)
                        c.ob("qualify", "%s of <%s>, %s%s" % (n, ascii(x)[1:-1], dn, ", with links" if rich else ""), f.where(), bad is None,
                             "%s: with the prefixes %s, the IRI <%s> %s" % (n, ", ".join("%s: <%s>" % d for d in ds), x, bad))


def maps(c, P, F):
    m = M(P)
    ptr = ("p", -1, ())
    base = [("a", "http://a/"), ("", "http://e/"), ("b", "http://b/")]
    for ds in (base, [], base[1:]):
        for al in ("a", "", "z", "b", "A", "ab"):
            d = dict(ds)
            if F["find"] is not None:
                got = [outcome_opt(r) for r, _ in m.run(F["find"], (m.pm(ds), s(al)))]
                c.ob("map", "find %r among %d" % (al, len(ds)), F["find"].where(), got == [d.get(al)], "find(%r) in %s gives %s instead of %s" % (al, ds, got, d.get(al)))
            if F["add_prefix"] is not None:
                got = [m.ds(o[0]) for _, o in run_cell(m, F["add_prefix"], (ptr, s(al), iris("http://new/")), m.pm(ds))]
                w = dict(ds)
                w[al] = "http://new/"
                c.ob("map", "add %r to %d" % (al, len(ds)), F["add_prefix"].where(), len(got) == 1 and got[0] is not None and len(got[0]) == len(w) and dict(got[0]) == w,
                     "add_prefix(%r, <http://new/>) to %s leaves %s" % (al, ds, got))
            if F["remove_prefix"] is not None:
                outs = run_cell(m, F["remove_prefix"], (ptr, s(al)), m.pm(ds))
                w = {k: v for k, v in ds if k != al}
                c.ob("map", "remove %r from %d" % (al, len(ds)), F["remove_prefix"].where(),
                     len(outs) == 1 and outcome_opt(outs[0][0]) == d.get(al) and m.ds(outs[0][1][0]) is not None and dict(m.ds(outs[0][1][0])) == w and len(m.ds(outs[0][1][0])) == len(w),
                     "remove_prefix(%r) from %s leaves %s" % (al, ds, [m.ds(o[1][0]) for o in outs]))
        for other in ([("a", "http://a2/"), ("c", "http://c/"), ("", "http://d/")], [("z", "http://z/")], []):
            if F["merge"] is not None:
                got = [m.ds(o[0]) for _, o in run_cell(m, F["merge"], (ptr, m.pm(other)), m.pm(ds))]
                w = dict(ds)
                w.update(dict(other))
                c.ob("map", "merge %d with %d" % (len(ds), len(other)), F["merge"].where(), len(got) == 1 and got[0] is not None and len(got[0]) == len(w) and dict(got[0]) == w,
                     "merging %s into %s leaves %s" % (other, ds, got))


def run_cell(m, f, args, cell):
    m.I.memo.clear()
    m.I.steps = 0
    outs = []
    for o in m.I.exec_fn(f, args, (cell,), {}, (), ()):
        if (o[0], o[1]) not in outs:
            outs.append((o[0], o[1]))
    return outs


def outcome_opt(v):
    if v == NONE:
        return None
    return unwrap(v[3][0]) if v and v[0] == "a" and v[2] == "Some" else ("?", v)


# ---- dereferencing syntax trees
SLOT = ("slot",)


class Gen:
    """small values of a type, with a slot for every IRI reference"""

    def __init__(self, P):
        self.P = P
        self.reach = {}

    def templates(self, cr, T, d, stack=()):
        k = T["k"]
        if k == "adt":
            a = T["adt"]
            args = [(cr, self.P.ty(cr, x)) for x in T.get("a") or []]
            if a == IRIREF:
                return [SLOT]
            if a == "alloc::string::String":
                return [s("text")]
            if a == "core::option::Option":
                xs = self.templates(*args[0], d, stack)
                return ([some(x) for x in xs[:1]] + [NONE] + [some(x) for x in xs[1:]]) if xs else [NONE]
            if a == "alloc::boxed::Box":
                return self.templates(*args[0], d, stack)
            if a == "alloc::vec::Vec":
                xs = self.templates(*args[0], d, stack)
                return [L(xs[:2] if len(xs) > 1 else xs * 2)] + [L((x,)) for x in xs] + [L(())] if xs else [L(())]
            A = self.P.adts.get(a)
            if A is None or not a.startswith(("shex_ast::", LITERAL)):
                return [("a", a, "opaque", (s("opaque"),))]
            if stack.count(a) > 1 or len(stack) > 9:
                return []
            out = []
            for v in A["v"]:
                vn = v["n"] if A["k"] == "enum" else ""
                fs = [self.templates(A["crate"], self.P.ty(A["crate"], t), d - 1, stack + (a,)) for _, t in v["f"]]
                if any(not f for f in fs):
                    continue
                out.append(("a", a, vn, tuple(f[0] for f in fs)))
                if d > 0:
                    for i, f in enumerate(fs):
                        for x in f[1:]:
                            out.append(("a", a, vn, tuple(x if j == i else g[0] for j, g in enumerate(fs))))
            return out
        if k == "bool":
            return [("b", True)]
        if k in ("int", "uint"):
            return [("i", 1)]
        return [s("other")]


def fill(t, kinds, n):
    """(the value with the n-th slot filled by a reference of the kind kinds[n % len], the next n)"""
    if t == SLOT:
        k = kinds[n[0] % len(kinds)]
        n[0] += 1
        return ref(k % n[0])
    if isinstance(t, tuple):
        return tuple(fill(x, kinds, n) if isinstance(x, tuple) else x for x in t)
    return t


def expect(v, base, ds):
    """the value with all its references resolved, or None"""
    if isinstance(v, tuple) and len(v) == 4 and v[0] == "a" and v[1] == IRIREF:
        if v[2] == "Prefixed":
            p, l = v[3][0][1], v[3][1][1]
            return ref(dict(ds)[p] + l) if ds is not None and p in dict(ds) else GONE
        x = v[3][0][3][0][1]
        return ref(urljoin(base, x)) if base else v
    if isinstance(v, tuple) and len(v) == 4 and v[0] == "a" and v[1] == LITERAL and v[2] == "WrongDatatypeLiteral":
        return WRONG(v, base, ds)
    if isinstance(v, tuple):
        out = []
        for x in v:
            y = expect(x, base, ds) if isinstance(x, tuple) else x
            if y == GONE:
                return GONE
            out.append(y)
        return tuple(out)
    return v


PLACES = {}


def WRONG(v, base, ds):
    lex, dt = PLACES["wrong"]
    y = expect(v[3][dt], base, ds)
    return y if y == GONE else ("a", LITERAL, "DatatypeLiteral", tuple(v[3][lex] if n == "lexical_form" else y for n in PLACES["right"]))


def impls(P):
    out = []
    for k, f in sorted(P.fns.items()):
        mm = re.match(r"^<(.*) as prefixmap::iri::deref_iri::DerefIri>::deref_iri$", k)
        if mm and mm.group(1) in P.adts and mm.group(1).startswith(("shex_ast::", "prefixmap::", "rudof_rdf::")):
            out.append((mm.group(1), f))
    return out


def places(P):
    vs = {v["n"]: [n for n, _ in v["f"]] for v in P.adts[LITERAL]["v"]}
    w, r = vs.get("WrongDatatypeLiteral"), vs.get("DatatypeLiteral")
    if not w or not r or "lexical_form" not in w or "datatype" not in w or set(r) != {"lexical_form", "datatype"}:
        return False
    PLACES["wrong"] = (w.index("lexical_form"), w.index("datatype"))
    PLACES["right"] = r
    return True


def refs(v):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "a" and v[1] == IRIREF:
            yield v
        else:
            for x in v:
                yield from refs(x)


def show(m, v):
    try:
        return m.I.show(v)[:160]
    except Exception:
        return repr(v)[:160]


KINDS = ("http://abs/x%d", "rel%d", "p|l%d")
BASE, DS = "http://b/d/doc", [("q", "http://q/"), ("p", "http://p#")]


def deref_type(c, P, adt, f):
    m = M(P)
    crate = P.adts[adt]["crate"]
    if adt == IRIREF:
        ts = [SLOT]
    else:
        g = Gen(P)
        ts = g.templates(crate, {"k": "adt", "adt": adt, "a": []}, 2)
    short_ = adt.rsplit("::", 1)[-1]
    seen = set()
    n = 0
    for t in ts:
        for rot in range(3):
            v = fill(t, KINDS[rot:] + KINDS[:rot], [0])
            if v in seen:
                continue
            seen.add(v)
            n += 1
            for ctx, base, ds in (("base and prefixes", BASE, DS), ("prefixes", None, DS), ("base", BASE, None), ("other prefixes", BASE, [("q", "http://q/")])):
                if ctx in ("base", "other prefixes") and rot != 1 and n > 6:
                    continue
                want = expect(v, base, ds)
                outs = {outcome(r) for r, _ in m.run(f, (v, some(iris(base)) if base else NONE, some(m.pm(ds)) if ds is not None else NONE))}
                good = outs == {("error",)} if want == GONE else outs == {("ok", want)}
                if good:
                    msg = ""
                else:
                    got = [o for o in outs]
                    if len(got) == 1 and got[0][0] == "ok" and want != GONE:
                        a, b = list(refs(got[0][1])), list(refs(want))
                        dif = [(name(x), name(y)) for x, y in zip(a, b) if x != y]
                        msg = "a reference becomes %s instead of %s" % dif[0] if dif and len(a) == len(b) else "the result is %s" % show(m, got[0][1])
                    else:
                        msg = "the result is %s instead of %s" % (sorted(o[0] for o in got), "an error" if want == GONE else "a value")
                c.ob("deref", "%s %s #%d, %s" % (short_, label(v), n, ctx), f.where(), good, "resolving %s with %s: %s" % (show(m, v), ctx, msg))
    return n


def name(v):
    return "<%s>" % v[3][0][3][0][1] if v[2] == "Iri" and v[3][0][0] == "a" else ":".join(str(x[1]) for x in v[3])


def label(v):
    return v[2] if v[0] == "a" else ""


# ---- the documents
def schema(c, P):
    f = [g for k, g in P.fns.items() if re.search(r"shex_parser::ShExParser.*::parse$", k)]
    it = [k for k in P.fns if re.search(r"<shex_ast::compact::shex_parser::StatementIterator.* as core::iter::traits::iterator::Iterator>::next$", k)]
    st = [k for k in P.adts if k.endswith("::ShExStatement")]
    sch = [k for k in P.adts if k == "shex_ast::ast::schema::Schema"]
    if len(f) != 1 or len(it) != 1 or len(st) != 1 or len(sch) != 1:
        c.anchor("document", "parser", f, "ShExParser::parse, its statements and the Schema")
        return
    f = f[0]
    A = P.adts[st[0]]
    VS = {v["n"]: [n for n, _ in v["f"]] for v in A["v"]}
    LAB = "shex_ast::ast::shape_expr_label::ShapeExprLabel"
    SE = "shex_ast::ast::shape_expr::ShapeExpr"
    SEMACT = "shex_ast::ast::sem_act::SemAct"

    def stmt(n, **kw):
        if n not in VS or set(kw) != set(VS[n]):
            raise LookupError(n)
        return ("a", st[0], n, tuple(kw[x] for x in VS[n]))
    lab = lambda x: ("a", LAB, "IriRef", (ref(x),))
    se = lambda x: ("a", SE, "Ref", (lab(x),))
    semf = [n for n, _ in P.adts[SEMACT]["v"][0]["f"]]
    act = lambda x: ("a", SEMACT, "", tuple(ref(x) if n == "name" else NONE for n in semf))
    B = lambda x: ("base", x)
    Pf = lambda a, x: ("prefix", a, x)
    Sh = lambda l, r: ("shape", l, r)
    docs = [
        ("no directives", None, [Sh("http://a/S", "http://a/T")]),
        ("given base", "http://g/x", [Sh("S", "T"), Sh("http://a/S", "#T")]),
        ("base", None, [B("http://b/"), Sh("S", "T")]),
        ("base replaces the given one", "http://g/", [B("http://b/"), Sh("S", "T")]),
        ("base from its place", "http://g/", [Sh("S", "T"), B("http://b/"), Sh("S", "T")]),
        ("relative base", None, [B("http://b/"), B("c/"), Sh("S", "../T")]),
        ("base relative to the given one", "http://g/d/", [B("c/"), Sh("S", "T")]),
        ("two bases", None, [B("http://b/"), Sh("S", "T"), B("http://c/"), Sh("S", "T")]),
        ("prefix", None, [Pf("p", "http://p#"), Sh("p|S", "p|T")]),
        ("relative prefix", None, [B("http://b/"), Pf("p", "p#"), Sh("p|S", "p|T")]),
        ("prefix relative to the given base", "http://g/", [Pf("p", "p#"), Pf("", "#"), Sh("p|S", "|T")]),
        ("relative prefix and a later base", None, [B("http://b/"), Pf("p", "p#"), B("http://c/"), Sh("p|S", "T")]),
        ("redeclared prefix", None, [Pf("p", "http://p#"), Sh("p|S", "p|T"), Pf("p", "http://q#"), Sh("p|S", "p|T")]),
        ("prefix redeclared relative to the base", None, [B("http://b/"), Pf("p", "p#"), B("http://c/"), Pf("p", "p#"), Sh("p|S", "p|T")]),
        ("undeclared prefix", None, [Pf("p", "http://p#"), Sh("q|S", "p|T")]),
        ("undeclared prefix in the shape", None, [Pf("p", "http://p#"), Sh("p|S", "q|T")]),
        ("prefix declared too late", None, [Sh("p|S", "p|T"), Pf("p", "http://p#")]),
        ("start", None, [B("http://b/"), Pf("p", "http://p#"), ("start", "T"), ("start", "p|T")]),
        ("relative start", None, [B("http://b/"), ("start", "T"), B("http://c/")]),
        ("relative start, given base", "http://g/d", [("start", "T")]),
        ("start of an undeclared prefix", None, [("start", "p|T")]),
        ("import", None, [B("http://b/"), Pf("p", "http://p#"), ("import", "i"), ("import", "p|i"), ("import", "http://a/i"), B("http://c/"), ("import", "i")]),
        ("import of an undeclared prefix", None, [("import", "p|i")]),
        ("actions", None, [B("http://b/"), Pf("p", "http://p#"), ("actions", "p|act", "act")]),
        ("actions of an undeclared prefix", None, [B("http://b/"), ("actions", "p|act")]),
        ("alias of several namespaces", None, [Pf("a", "http://a/"), Pf("b", "http://a/b/"), Sh("a|S", "b|T"), Sh("b|S", "a|T")]),
    ]
    fs = [n for n, _ in P.adts[sch[0]]["v"][0]["f"]]

    def meaning(base, doc):
        pm, shapes, imports, acts, start = {}, [], [], [], []

        def den(x):
            if "|" in x:
                p, l = x.split("|", 1)
                if p not in pm:
                    raise KeyError(p)
                return pm[p] + l
            return urljoin(base, x) if base else x
        try:
            for d in doc:
                if d[0] == "base":
                    base = den(d[1])
                elif d[0] == "prefix":
                    pm[d[1]] = den(d[2])
                elif d[0] == "shape":
                    shapes.append((den(d[1]), den(d[2])))
                elif d[0] == "start":
                    start = [den(d[1])]
                elif d[0] == "import":
                    imports.append(den(d[1]))
                elif d[0] == "actions":
                    acts = [den(x) for x in d[1:]]
        except KeyError:
            return ("error",)
        return ("ok", ("prefixes", tuple(sorted(pm.items()))), ("base", base), ("shapes", tuple(shapes)), ("imports", tuple(imports)), ("actions", tuple(acts)), ("start", tuple(start)))
    DECL = "shex_ast::ast::shape_decl::ShapeDecl"
    df = [n for n, _ in P.adts[DECL]["v"][0]["f"]]

    def rd(v):
        if v and v[0] == "a" and v[1] == IRIREF and v[2] == "Iri":
            return unwrap(v[3][0])
        if v and v[0] == "a" and v[1] == LAB and v[2] == "IriRef":
            return rd(v[3][0])
        if v and v[0] == "a" and v[1] == SE and v[2] == "Ref":
            return rd(v[3][0])
        return "?"

    def read(m, v):
        if not v or v[0] != "a" or v[1] != sch[0]:
            return ("?",)
        g = dict(zip(fs, v[3]))
        opt = lambda x: () if x == NONE else x[3][0][1] if x[0] == "a" and x[3][0][0] == "L" else ("?",)
        pm = g["prefixmap"]
        ds = () if pm == NONE else m.ds(pm[3][0]) or ()
        return ("ok", ("prefixes", tuple(sorted(ds))), ("base", outcome_opt(g["base"])),
                ("shapes", tuple((rd(x[3][df.index("id")]), rd(x[3][df.index("shape_expr")])) for x in opt(g["shapes"]))),
                ("imports", tuple(rd(x[3][0]) if x[0] == "a" and x[2] == "IriRef" else "?" for x in opt(g["imports"]))),
                ("actions", tuple(rd(x[3][semf.index("name")]) for x in opt(g["start_acts"]))), ("start", () if g["start"] == NONE else (rd(g["start"][3][0]),)))
    n = 0
    for dn, base, doc in docs:
        vals = []
        try:
            for d in doc:
                if d[0] == "base":
                    vals.append(stmt("BaseDecl", iri=iris(d[1])))
                elif d[0] == "prefix":
                    vals.append(stmt("PrefixDecl", alias=s(d[1]), iri=iris(d[2])))
                elif d[0] == "shape":
                    vals.append(stmt("ShapeDecl", is_abstract=("b", False), shape_label=lab(d[1]), shape_expr=se(d[2])))
                elif d[0] == "start":
                    vals.append(stmt("StartDecl", shape_expr=se(d[1])))
                elif d[0] == "import":
                    vals.append(stmt("ImportDecl", iri=ref(d[1])))
                elif d[0] == "actions":
                    vals.append(stmt("StartActions", actions=L(act(x) for x in d[1:])))
        except LookupError as e:
            c.anchor("document", "statement " + str(e), [], "the statement %s" % e)
            return
        m = M(P)

        todo = tuple(ok(v) for v in vals)

        def nxt(I, site, nm, callee, a, stt):
            i = stt.G.get(("next",), 0)
            ns = stt.fork()
            ns.G[("next",)] = i + 1
            return [(some(todo[i]) if i < len(todo) else NONE, ns)]
        hs = [(r"StatementIterator.* as core::iter::traits::iterator::Iterator>::next$", nxt),
              (r"StatementIterator.*::new$", lambda I, site, nm, callee, a, stt: [(ok(("a", "STATEMENTS", "", ())), stt)])]
        m.I = new_interp(P, hs + handlers(), seq_cap=64, int_cap=100000, inline_display=True, max_depth=60)
        outs = m.run(f, (s("the document"), some(iris(base)) if base else NONE, iris("http://source/")))
        want = meaning(base, doc)
        got = sorted({(lambda o: read(m, o[1]) if o[0] == "ok" else o)(outcome(r)) for r, _ in outs}, key=repr)
        bad = ""
        if got != [want]:
            if len(got) == 1 and got[0][0] == "ok" and want[0] == "ok":
                bad = "; ".join("the %s are %s instead of %s" % (x[0], x[1], y[1]) for x, y in zip(got[0][1:], want[1:]) if x != y)
            else:
                bad = "the results are %s instead of %s" % (sorted({g[0] for g in got}), want[0])
        c.ob("document", dn, f.where(), not bad, "a ShExC document with %s%s: %s" % (doc, " read with the base <%s>" % base if base else "", bad))
        n += 1


class Rec:
    def __init__(self):
        self.out = []

    def ob(self, *a):
        self.out.append(("ob", a))

    def anchor(self, *a):
        self.out.append(("anchor", a))


WORK = []


def _work(i):
    r = Rec()
    WORK[i](r)
    return r.out


def run(c):
    import multiprocessing as mp
    P = c.prog
    c.rule("resolve", "PrefixMap::resolve, resolve_prefix_local, resolve_iriref and IriRef::get_iri_prefixmap give the concatenation of the declared namespace and the local name, and an error for an undeclared prefix")
    c.rule("qualify", "what PrefixMap::qualify, qualify_optional and qualify_and_length write is a name of Turtle, SPARQL and ShExC that denotes the IRI, with the longest of the declared namespaces, and the IRI in full only when there is none")
    c.rule("map", "adding, finding, removing and merging declarations of prefixes")
    c.rule("deref", "deref_iri of every type: each reference inside the value is resolved, everything else is unchanged, an undeclared prefix is an error")
    c.rule("document", "ShExParser::parse: each directive and declaration is read with the base and the prefixes in force at its place")
    F = anchors(c, P)
    ims = impls(P)
    WORK[:] = [lambda r: resolve(r, P, F), lambda r: qualify(r, P, F), lambda r: maps(r, P, F), lambda r: schema(r, P)]
    if not places(P):
        c.anchor("deref", "literals", [], "the literals with datatypes")
    else:
        order = sorted(ims, key=lambda x: not x[0].endswith(("TripleExpr", "ShapeExpr", "ShapeDecl", "Shape", "Wrapper")))
        for adt, f in order:
            WORK.append(lambda r, adt=adt, f=f: deref_type(r, P, adt, f))
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(_work, range(len(WORK)), chunksize=1)
    for out in res:
        for k, a in out:
            getattr(c, k)(*a)
    c.floor("resolve", 800, "resolutions of names")
    c.floor("qualify", 1500, "names written")
    c.floor("map", 50, "operations on prefix maps")
    c.floor("deref", 1000, "values with references")
    c.floor("document", 20, "documents")
    c.notes.append("%d implementations of DerefIri" % len(ims))
