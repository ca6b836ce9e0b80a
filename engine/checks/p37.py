"""P37: the compiled form of a ShEx schema states what its syntax tree states (compiler interpreted over syntax trees; result compared with the meaning of the tree)."""
import itertools, re
from vf import absint, natives, petgraph
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *
from checks.p22 import plain, table, anch
from checks.p19 import node, lst, efn, IDX
from checks.p19 import struct as struct19
from checks import p38

TITLE = "A ShEx schema is compiled to what its text says"
AST, IR = "shex_ast::ast::", "shex_ast::ir::"
B = {}
IRIREF = "prefixmap::iri::iri_ref::IriRef"


def s(x): return ("s", x)
def opt(x): return NONE if x is None else Some(x)
def a(short, variant, *f): return ("a", B[short], variant, f)


def resolve(P):
    """the types of syntax trees and compiled schemas, by their short names"""
    for pre, names in ((AST, "Schema ShapeDecl ShapeExpr ShapeExprWrapper ShapeExprLabel Shape NodeConstraint TripleExpr TripleExprWrapper TripleExprLabel ValueSetValue XsFacet NumericFacet StringFacet Pattern "
                             "ObjectValue IriExclusion LiteralExclusion LanguageExclusion IriRefOrWildcard StringOrWildcard LangOrWildcard BNode NodeKind SemAct IriOrStr CondKind"),
                       (IR, "SchemaIR ShapeExpr Shape NodeConstraint ValueSetValue ValueSet ShapeExprInfo IriOrWildcard StringOrWildcard LangOrWildcard IriExclusion LiteralExclusion LanguageExclusion ObjectValue "
                            "ShapeLabel ShapeLabelIdx SemanticActionsRegistry ExternalShapeResolverRegistry SemAct")):
        for n in names.split():
            c = [k for k in P.adts if k.startswith(pre) and k.rsplit("::", 1)[-1] == n and "<impl" not in k]
            B[("ir." if pre == IR else "") + n] = c[0] if len(c) == 1 else None
    for n in ("AST2IR", "PrefixMap", "ResolveMethod"):
        c = [k for k in P.adts if k.rsplit("::", 1)[-1] == n and "<impl" not in k]
        B[n] = c[0] if len(c) == 1 else None
    return [k for k, v in B.items() if v is None]


def struct(P, short, **kw):
    ad = P.adts[B[short]]["v"][0]
    names = [f[0] for f in ad["f"]]
    if set(kw) - set(names):
        return None
    return ("a", B[short], "", tuple(kw.get(n, NONE) for n in names))


# ---- syntax trees: a notation in Python, its value, its meaning
PFX = {"ex": "http://e/", "xsd": "http://www.w3.org/2001/XMLSchema#"}


def iri(x):
    """'p:l' with p one of the prefixes of the grid is a prefixed name"""
    p, _, l = x.partition(":")
    return ("a", IRIREF, "Prefixed", (s(p), s(l))) if p in ("ex", "xsd", "no") else ("a", IRIREF, "Iri", (s(x),))


def full(x):
    p, _, l = x.partition(":")
    if p == "no":
        raise KeyError("undeclared prefix")
    return PFX[p] + l if p in PFX else x


class Bad(Exception):
    pass


class Build:
    def __init__(self, P):
        self.P = P

    def label(self, x):
        if x == "start":
            return a("ShapeExprLabel", "Start")
        return a("ShapeExprLabel", "BNode", a("BNode", "", s(x[2:]))) if x.startswith("_:") else a("ShapeExprLabel", "IriRef", iri(x))

    def tlabel(self, x):
        return a("TripleExprLabel", "BNode", a("BNode", "", s(x[2:]))) if x.startswith("_:") else a("TripleExprLabel", "IriRef", iri(x))

    def excl(self, kind, xs):
        if xs is None:
            return NONE
        mk = {"Iri": iri, "Literal": s, "Language": p38.lang}[kind]
        return Some(lst(a(kind + "Exclusion", kind + ("Stem" if st else ""), mk(x)) for st, x in xs))

    def value(self, v):
        V = lambda n, *f: a("ValueSetValue", n, *f)
        k = v[0]
        if k == "iri":
            return V("ObjectValue", a("ObjectValue", "IriRef", iri(v[1])))
        if k == "lit":
            return V("ObjectValue", a("ObjectValue", "Literal", v[1]))
        if k == "iristem":
            return V("IriStem", iri(v[1]))
        if k == "litstem":
            return V("LiteralStem", s(v[1]))
        if k == "lang":
            return V("Language", p38.lang(v[1]))
        low = lambda x: a("LangOrWildcard", "Wildcard") if x is None else a("LangOrWildcard", "Lang", p38.lang(x))
        if k == "langstem":
            return V("LanguageStem", low(v[1]))
        if k == "langrange":
            return V("LanguageStemRange", low(v[1]), self.excl("Language", v[2]))
        if k == "irirange":
            return V("IriStemRange", a("IriRefOrWildcard", "Wildcard") if v[1] is None else a("IriRefOrWildcard", "IriRef", iri(v[1])), self.excl("Iri", v[2]))
        if k == "litrange":
            return V("LiteralStemRange", a("StringOrWildcard", "Wildcard") if v[1] is None else a("StringOrWildcard", "String", s(v[1])), self.excl("Literal", v[2]))
        raise Bad(k)

    def facet(self, f):
        k, v = f[0], f[1]
        if k == "Pattern":
            return a("XsFacet", "StringFacet", a("StringFacet", "Pattern", struct(self.P, "Pattern", str=s(v), flags=opt(s(f[2]) if f[2] is not None else None))))
        if k in ("Length", "MinLength", "MaxLength"):
            return a("XsFacet", "StringFacet", a("StringFacet", k, ("i", v)))
        return a("XsFacet", "NumericFacet", a("NumericFacet", k, ("i", v) if k.endswith("Digits") else v))

    def nc(self, e):
        _, nk, dt, fs, vs = e
        return struct(self.P, "NodeConstraint", node_kind=opt(a("NodeKind", nk) if nk else None), datatype=opt(iri(dt) if dt else None),
                      xs_facet=opt(lst(self.facet(f) for f in fs) if fs is not None else None), values=opt(lst(self.value(v) for v in vs) if vs is not None else None))

    def wrap(self, e):
        return a("ShapeExprWrapper", "", self.expr(e))

    def acts(self, xs):
        return opt(None if xs is None else lst(struct(self.P, "SemAct", name=iri(n), code=opt(s(c) if c is not None else None)) for n, c in xs))

    def expr(self, e):
        S = lambda n, *f: a("ShapeExpr", n, *f)
        k = e[0]
        if k == "ref":
            return S("Ref", self.label(e[1]))
        if k in ("and", "or"):
            return S("Shape" + k.capitalize(), lst(self.wrap(x) for x in e[1]))
        if k == "not":
            return S("ShapeNot", self.wrap(e[1]))
        if k == "ext":
            return S("External")
        if k == "nc":
            return S("NodeConstraint", self.nc(e))
        if k == "shape":
            _, closed, extra, te, extends = e
            return S("Shape", struct(self.P, "Shape", closed=opt(None if closed is None else ("b", closed)), extra=opt(None if extra is None else lst(iri(x) for x in extra)),
                                     expression=opt(None if te is None else self.twrap(te)), extends=opt(None if extends is None else lst(self.label(x) for x in extends))))
        raise Bad(k)

    def twrap(self, t):
        return a("TripleExprWrapper", "", self.te(t))

    def te(self, t):
        k = t[0]
        num = lambda x: opt(None if x is None else ("i", x))
        if k == "tref":
            return a("TripleExpr", "Ref", self.tlabel(t[1]))
        if k in ("each", "one"):
            _, xs, mn, mx, id_ = t
            vals = dict(id=opt(self.tlabel(id_) if id_ else None), expressions=lst(self.twrap(x) for x in xs), min=num(mn), max=num(mx))
            v = "EachOf" if k == "each" else "OneOf"
        else:
            _, p, inv, ve, mn, mx, id_ = t[:7]
            neg, acts = (t[7:] + (None, None))[:2]
            vals = dict(id=opt(self.tlabel(id_) if id_ else None), negated=opt(None if neg is None else ("b", neg)), inverse=opt(None if inv is None else ("b", inv)), predicate=iri(p),
                        value_expr=opt(self.expr(ve) if ve is not None else None), min=num(mn), max=num(mx), sem_acts=self.acts(acts))
            v = "TripleConstraint"
        ad = [x for x in self.P.adts[B["TripleExpr"]]["v"] if x["n"] == v][0]
        return ("a", B["TripleExpr"], v, tuple(vals.get(f[0], NONE) for f in ad["f"]))

    def pm(self):
        return struct(self.P, "PrefixMap", map=lst(("t", (s(k), s(v))) for k, v in PFX.items()), hyperlink=FALSE)

    def schema(self, d):
        decls = [struct(self.P, "ShapeDecl", type_=s("ShapeDecl"), id=self.label(l), is_abstract=("b", l in d.get("abstract", ())), shape_expr=self.expr(e)) for l, e in d["shapes"]] if d.get("shapes") is not None else None
        return struct(self.P, "Schema", context=s("c"), type_=s("Schema"), start=opt(self.expr(d["start"]) if "start" in d else None), shapes=opt(lst(decls) if decls is not None else None),
                      prefixmap=Some(self.pm()), source_iri=s(d.get("iri", "http://s/main")), start_acts=self.acts(d.get("start_acts")),
                      imports=opt(lst(a("IriOrStr", "IriRef", iri(x)) for x in d["imports"]) if d.get("imports") else None))


# ---- meaning of a syntax tree
def spec(d, more=()):
    """{label: (abstract, meaning)} of a schema and its imports; Bad if the schema is not well-formed"""
    shapes, tes = {}, {}

    def reg(e):
        if e[0] in ("and", "or"):
            [reg(x) for x in e[1]]
        elif e[0] == "not":
            reg(e[1])
        elif e[0] == "shape" and e[3] is not None:
            regt(e[3])

    def regt(t):
        if t[0] == "tref":
            return
        id_ = t[4] if t[0] in ("each", "one") else t[6]
        if id_:
            if tkey(id_) in tes:
                raise Bad("label of a triple expression twice")
            tes[tkey(id_)] = t
        if t[0] in ("each", "one"):
            [regt(x) for x in t[1]]
    docs = [(x, False) for x in more] + [(d, True)]
    for x, main in docs:
        seen = set()
        for l, e in x.get("shapes") or ():
            if main and l in seen:
                raise Bad("label of a shape twice")
            seen.add(l)
            reg(e)
            shapes[lkey(l)] = (l in x.get("abstract", ()), e)
        if "start" in x:
            reg(x["start"])
            if main:
                shapes["start"] = (False, x["start"])
    return {l: (ab, mean(e, shapes, tes)) for l, (ab, e) in shapes.items()}


def lkey(l):
    if ":" in l and l.split(":")[0] in ("ex", "xsd", "no"):
        raise Bad("prefixed label")
    return l


tkey = lambda l: l


def fulli(x):
    try:
        return full(x)
    except KeyError:
        raise Bad("undeclared prefix")


def mean(e, shapes, tes):
    k = e[0]
    if k == "ref":
        if lkey(e[1]) not in shapes:
            raise Bad("reference to no shape")
        return ("ref", e[1])
    if k in ("and", "or"):
        return (k, tuple(mean(x, shapes, tes) for x in e[1]))
    if k == "not":
        return ("not", mean(e[1], shapes, tes))
    if k == "ext":
        return ("ext",)
    if k == "nc":
        return ("cond", mnc(e))
    _, closed, extra, te, extends = e
    t = mte(te, shapes, tes, ()) if te is not None else ("none",)
    for l in extends or ():
        if lkey(l) not in shapes:
            raise Bad("extends no shape")
    return ("shape", bool(closed), tuple(sorted(fulli(x) for x in extra or ())), t, tuple(extends or ()), tuple(sorted(preds(t))))


def mnc(e):
    _, nk, dt, fs, vs = e
    out = []
    if nk:
        out.append(("NodeKind", nk))
    if dt:
        out.append(("Datatype", fulli(dt)))
    for f in fs or ():
        out.append(f if f[0] == "Pattern" else (f[0], f[1]))
    if vs is not None:
        out.append(("ValueSet", tuple(mval(v) for v in vs)))
    return tuple(sorted(out, key=repr))


def mval(v):
    ex = lambda xs, f: None if xs is None else tuple((st, f(x)) for st, x in xs)
    ident_ = lambda x: x
    if v[0] in ("iri", "iristem"):
        return (v[0], fulli(v[1]))
    if v[0] == "irirange":
        return (v[0], None if v[1] is None else fulli(v[1]), ex(v[2], fulli))
    if v[0] in ("litrange", "langrange"):
        return (v[0], v[1], ex(v[2], ident_))
    return v


def mte(t, shapes, tes, stack):
    k = t[0]
    if k == "tref":
        if tkey(t[1]) not in tes:
            raise Bad("reference to no triple expression")
        if tkey(t[1]) in stack:
            raise Bad("cyclic reference to a triple expression")
        return mte(tes[tkey(t[1])], shapes, tes, stack + (tkey(t[1]),))
    if k in ("each", "one"):
        xs = tuple(mte(x, shapes, tes, stack) for x in t[1])
        return norm((k, xs), mcard(t[2], t[3]))
    _, p, inv, ve, mn, mx, id_ = t[:7]
    neg, acts = (t[7:] + (None, None))[:2]
    if neg:
        raise Bad("negated triple constraint")
    if p.split(":")[0] in ("ex", "xsd", "no"):
        raise Bad("prefixed predicate")
    cond = () if ve is None else mval_expr(mean(ve, shapes, tes))
    cond = cond + tuple(("SemAct", fulli(n), code) for n, code in acts or ())
    return ("tc", p, not inv, tuple(sorted(cond, key=repr))) + mcard(mn, mx)


def mval_expr(m):
    return m[1] if m[0] == "cond" else (("expr", m),)


def mcard(mn, mx):
    mn = 1 if mn is None else mn
    mx = 1 if mx is None else mx
    if mn < 0 or mx < -1:
        raise Bad("cardinality")
    return (mn, None if mx == -1 else mx)


def norm(t, card):
    """a group with its cardinality; groups of one expression are that expression, a repetition of exactly once is not there"""
    if t[0] in ("each", "one") and len(t[1]) == 1:
        t = t[1][0]
    return t if card == (1, 1) else ("rep", t) + card


def preds(t):
    if t[0] in ("each", "one"):
        return set().union(*[preds(x) for x in t[1]]) if t[1] else set()
    if t[0] == "rep":
        return preds(t[1])
    return {(t[1], t[2])} if t[0] == "tc" else set()


# ---- meaning of a compiled schema
class Read:
    def __init__(self, P, v):
        self.P, self.f = P, fields(P, v)
        pairs = lambda m: {x[1][0][3][0][1]: x[1][1] for x in m[1]}
        self.labels = {k: self.lab(x) for k, x in pairs(self.f["idx_labels_map"]).items()}
        self.back = {self.lab(x[1][0]): x[1][1][3][0][1] for x in self.f["labels_idx_map"][1]}
        self.shapes = {k: fields(P, x) for k, x in pairs(self.f["shapes"]).items()}
        self.abs = {x[3][0][1] for x in self.f["abstract_shapes"][1]}

    def lab(self, v):
        return {"Iri": lambda: v[3][0][1], "BNode": lambda: "_:" + v[3][0][3][0][1], "Start": lambda: "start"}[v[2]]()

    def all(self):
        if {l: i for i, l in self.labels.items()} != self.back:
            return {"the numbers of the labels": "are not those of the shapes: %s / %s" % (self.labels, self.back)}
        return {l: (i in self.abs, self.expr(self.shapes[i]["expr"])) for l, i in self.back.items()}

    def at(self, i):
        """meaning of the expression of number i where it is used"""
        n = i[3][0][1]
        return ("ref", self.labels[n]) if n in self.labels else self.expr(self.shapes[n]["expr"])

    def expr(self, e):
        k, f = e[2], e[3]
        if k == "Ref":
            n = f[0][3][0][1]
            return ("ref", self.labels[n]) if n in self.labels else self.at(f[0])
        if k in ("ShapeAnd", "ShapeOr"):
            return (k[5:].lower(), tuple(self.at(i) for i in f[0][1]))
        if k == "ShapeNot":
            return ("not", self.at(f[0]))
        if k == "External":
            return ("ext",)
        if k == "NodeConstraint":
            nc = fields(self.P, f[0])
            return ("cond", self.cond(nc["cond"]))
        if k == "Shape":
            sh = fields(self.P, f[0])
            pr = tuple(sorted({self.pred(p) for p in sh["preds"][1]}))
            ex = [self.pred(p) for p in sh["extra"][1]]
            if any(not d for _, d in ex):
                return ("extra with an inverse predicate",)
            return ("shape", sh["closed"][1], tuple(sorted(p for p, _ in ex)), self.table(sh["expr"]), tuple(self.labels.get(i[3][0][1], "?") for i in sh["extends"][1]), pr)
        return (k,)

    def pred(self, p):
        f = fields(self.P, p)
        return (f["iri"][1], f["is_direct"][1])

    def cond(self, v):
        out = []

        def go(v):
            if v[2] == "And":
                [go(x) for x in v[3][0][1]]
            elif v[2] == "Ref":
                m = self.at(v[3][0])
                out.extend(mval_expr(m))
            else:
                k = fields(self.P, v[3][0])["kind"]
                for x in (k[3] if k[0] == "a" and k[1].endswith("::Option") else [k]):
                    if x[2] != "Any":
                        out.append(self.kind(x))
        go(v)
        return tuple(sorted(out, key=repr))

    def kind(self, x):
        f = x[3]
        k = x[2]
        if k == "NodeKind":
            return (k, f[0][2])
        if k == "Datatype":
            return (k, f[0][1])
        if k == "Pattern":
            return (k, f[0][1], f[1][3][0][1] if f[1][2] == "Some" else None)
        if k in ("Length", "MinLength", "MaxLength", "TotalDigits", "FractionDigits"):
            return (k, f[0][1])
        if k == "ValueSet":
            return (k, tuple(self.value(v) for v in fields(self.P, f[0])["values"][1]))
        if k == "SemAct":
            return (k, f[0][1], f[1][3][0][1] if f[1][2] == "Some" else None)
        return (k, f[0])

    def value(self, v):
        f = v[3]
        o = lambda x: x[3][0] if x[2] == "Some" else None
        lg = lambda x: x[3][0][1] if x[0] == "a" else x[1]

        def ex(x, f):
            return None if o(x) is None else tuple((e[2].endswith("Stem"), f(e[3][0])) for e in o(x)[1])
        stem = lambda x, f: None if x[2] == "Wildcard" else f(x[3][0])
        one = lambda x: x[1]
        k = v[2]
        if k == "ObjectValue":
            return ("iri", f[0][3][0][1]) if f[0][2] == "IriRef" else ("lit", f[0][3][0])
        if k == "Language":
            return ("lang", lg(f[0]))
        if k == "LanguageStem":
            return ("langstem", stem(f[0], lg))
        if k == "IriStem":
            return ("iristem", f[0][1])
        if k == "LiteralStem":
            return ("litstem", f[0][1])
        n, g = {"IriStemRange": ("irirange", one), "LiteralStemRange": ("litrange", one), "LanguageStemRange": ("langrange", lg)}[k]
        return (n, stem(f[0], g), ex(f[1], g))

    def table(self, t):
        f = fields(self.P, t)
        key = {x[1][0][3][0][1]: self.pred(x[1][1]) for x in f["component_key"][1]}
        cond = {x[1][0][3][0][1]: x[1][1] for x in f["component_cond"][1]}
        rev = {}
        for x in f["key_components"][1]:
            for cc in x[1][1][1]:
                if cc[3][0][1] in rev:
                    return ("a component of two predicates",)
                rev[cc[3][0][1]] = self.pred(x[1][0])
        if rev != key:
            return ("the components of the predicates are not the predicates of the components",)
        if set(cond) != set(key):
            return ("components without a condition",)
        if not key and f["rbe"][0] == "a":
            r = f["rbe"]
        rbe = fields(self.P, f["rbe"])["rbe"] if f["rbe"][1].endswith("RbeStruct") else f["rbe"]
        num = lambda m: None if m[2] == "Unbounded" else m[3][0][1]

        def crd(v):
            g = fields(self.P, v)
            return (g["min"][3][0][1], num(g["max"]))

        def go(r):
            k, g = r[2], r[3]
            if k == "Empty":
                return ("none",)
            if k == "Symbol":
                cc = g[0][3][0][1]
                p, d = key[cc]
                return ("tc", p, d, self.cond(cond[cc])) + crd(g[1])
            if k in ("And", "Or"):
                return norm(({"And": "each", "Or": "one"}[k], tuple(go(x) for x in g[0][1])), (1, 1))
            if k in ("Star", "Plus"):
                return norm(go(g[0]), (0 if k == "Star" else 1, None))
            if k == "Repeat":
                return norm(go(g[0]), crd(g[1]))
            return (k,)
        return go(rbe)


class M:
    def __init__(self, P):
        self.P, self.docs, self.b = P, {}, Build(P)
        hs = petgraph.handlers() + [(r"find_schema_rotating_formats$", self.h_find), (r"SemanticActionsRegistry::find_code$", lambda I, si, n, cc, ar, st: [(Ok(I.sym("in", "ACT")), st)]),
                                    (r"PrefixMap::resolve_prefix_local$", self.h_prefix), (r"IriOrStr::resolve$", self.h_resolve), (r"show_qualified$|PrefixMap::qualify$", lambda I, si, n, cc, ar, st: [(I.sym("in", "TEXT"), st)])]
        self.I = new_interp(P, hs, seq_cap=64, int_cap=10 ** 6, max_depth=60, budget=2000000)
        self.graphs = [f for f in P.fns.values() if plain(f.id).rsplit("::", 1)[-1] in ("build_dependency_graph", "build_inheritance_graph") and "SchemaIR" in f.id and "{" not in f.id]
        self.f = [f for f in P.fns.values() if plain(f.id).endswith("AST2IR::compile") and "{" not in f.id]
        new = [f for f in P.fns.values() if plain(f.id).endswith("SchemaIR::new") and "{" not in f.id]
        self.new = new[0] if len(new) == 1 else None

    def h_resolve(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        return [(Ok(v[3][0][3][0]), st)] if v[2] == "IriRef" else None

    def h_prefix(self, I, site, name, callee, args, st):
        pm, p, l = (I.deref(x, st) for x in args[:3])
        m = fields(self.P, pm).get("map") if pm[0] == "a" else None
        if m is None or m[0] != "L" or p[0] != "s" or l[0] != "s":
            return None
        d = {x[1][0][1]: x[1][1][1] for x in m[1]}
        return [(Ok(s(d[p[1]] + l[1])) if p[1] in d else Err(I.sym("in", "NO PREFIX")), st)]

    def h_find(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        d = self.docs.get(v[1]) if v[0] == "s" else None
        return [(Ok(self.b.schema(d)) if d else Err(I.sym("in", "NO DOCUMENT")), st)]

    def stale(self, ir, build_):
        """why the graph `build_` makes is not that of the compiled shapes"""
        I = self.I
        shape = lambda v: sorted((repr(sorted(map(repr, g[3][0][1]))), repr(sorted(map(repr, g[3][1][1])))) for g in graphs_in(v))
        try:
            again = {o[1][0] for o in I.exec_fn(build_, (("p", -1, ()),), (ir,), {}, (), ())}
        except absint.Budget as e:
            return "not exact: %s" % e
        if any(shape(x) != shape(ir) for x in again) or not again or not shape(ir):
            return "the result of %s is not that of the compiled shapes" % build_.name

    def compile(self, d, docs=()):
        """-> ("ok", meaning) | ("error",) | ("?", why)"""
        I, P = self.I, self.P
        self.docs = {x["iri"]: x for x in docs}
        I.memo.clear()
        I.steps = 0
        ir = build(I, P, self.new.id, [])
        self_ = struct(P, "AST2IR", resolve_method=a("ResolveMethod", "RotatingFormats", lst([])), shape_decls_counter=("i", 0), semantic_actions_registry=struct(P, "ir.SemanticActionsRegistry", extensions=lst([])),
                       triple_expr_labels=lst([]))
        try:
            outs = I.exec_fn(self.f[0], (("p", -1, ()), self.b.schema(d), s(d.get("iri", "http://s/main")), NONE, ("p", -2, ()), struct(P, "ir.ExternalShapeResolverRegistry", resolvers=lst([]))), (self_, ir), {}, (), ())
        except absint.Budget as e:
            return ("?", "not exact: %s" % e)
        rets = {o[0][2] if o[0][0] == "a" else o[0][0] for o in outs}
        if rets == {"Err"}:
            return ("error",)
        vals = {o[1][1] for o in outs}
        if rets == {"Ok"}:
            for g in self.graphs:
                for v in vals:
                    stale = self.stale(v, g)
                    if stale:
                        return ("?", stale)
        if rets != {"Ok"}:
            return ("?", "%d outcomes: %s" % (len(outs), sorted(rets)))
        try:
            res = [Read(P, v).all() for v in vals]
            return ("ok", res[0]) if all(r == res[0] for r in res) else ("?", "several meanings: %s" % res)
        except (KeyError, IndexError, TypeError, AttributeError) as e:
            return ("?", "%s %s" % (type(e).__name__, e))


def graphs_in(v):
    if v[0] == "a" and v[1] == petgraph.GM:
        return [v]
    if v[0] in ("L", "t"):
        return [g for x in v[1] for g in graphs_in(x)]
    return [g for x in v[3] for g in graphs_in(x)] if v[0] == "a" else []


S, T1, U = "http://e/S", "http://e/T", "_:u"
tc = lambda p="http://e/p", ve=None, mn=None, mx=None, inv=None, id_=None, neg=None, acts=None: ("tc", p, inv, ve, mn, mx, id_, neg, acts)
sh = lambda te=None, closed=None, extra=None, ext=None: ("shape", closed, extra, te, ext)
nc = lambda nk=None, dt=None, fs=None, vs=None: ("nc", nk, dt, fs, vs)
IRI = nc("Iri")


def grids():
    """rule -> [(description, schema, imported documents)]"""
    L, LL = p38.strl("a"), p38.strl("a", "en")
    N = lambda i: ("s", "N%d" % i)
    out = {}
    one = lambda e, **k: dict(shapes=[(S, e)], **k)
    # values
    v = [("iri", ("iri", "http://e/a")), ("prefixed name", ("iri", "ex:a")), ("prefix", ("iri", "ex:")), ("literal", ("lit", L)), ("literal with language", ("lit", LL)), ("IRI stem", ("iristem", "http://e/a")),
         ("prefixed IRI stem", ("iristem", "ex:a")), ("literal stem", ("litstem", "a")), ("empty literal stem", ("litstem", "")), ("language", ("lang", "en")), ("language stem", ("langstem", "en")),
         ("any language", ("langstem", None))]
    for k, stems, ex in (("irirange", ("http://e/a", "ex:a", None), ("http://e/ab", "ex:ac", "ex:ad")), ("litrange", ("a", None), ("ab", "ac", "ad")), ("langrange", ("en", None), ("en-us", "en-gb", "fr"))):
        for st in stems:
            for xs in [None] + [tuple(zip(b, ex)) for n in range(4) for b in itertools.product((False, True), repeat=n)]:
                v.append(("%s %s - %s" % (k, st, xs), (k, st, xs)))
    rows = [(d, one(nc(vs=[x])), ()) for d, x in v]
    for n in (0, 2, 3, 4):
        rows.append(("%d values" % n, one(nc(vs=[v[i][1] for i in (0, 3, 5, 9)][:n])), ()))
    rows.append(("the same value twice", one(nc(vs=[("iri", "ex:a"), ("iri", "ex:a")])), ()))
    out["values"] = rows
    # conditions
    fac = [("Length", 0), ("Length", 5), ("MinLength", 1), ("MaxLength", 3), ("Pattern", "^a", None), ("Pattern", "a", "i"), ("Pattern", "", ""), ("MinInclusive", N(1)), ("MinExclusive", N(2)), ("MaxInclusive", N(3)),
           ("MaxExclusive", N(4)), ("TotalDigits", 3), ("FractionDigits", 2)]
    rows = [("facet %s" % (f,), one(nc(fs=[f])), ()) for f in fac]
    rows += [("facets %s" % (f,), one(nc(fs=list(f))), ()) for f in itertools.permutations([("MinLength", 1), ("MaxLength", 3), ("Pattern", "a", None)])]
    rows.append(("every facet", one(nc(fs=fac)), ()))
    rows.append(("two patterns", one(nc(fs=[("Pattern", "a", None), ("Pattern", "b", None)])), ()))
    rows += [("node kind %s" % k, one(nc(k)), ()) for k in ("Iri", "BNode", "NonLiteral", "Literal")]
    for b in itertools.product((0, 1), repeat=4):
        e = nc("Literal" if b[0] else None, "xsd:int" if b[1] else None, [("MinLength", 1), ("MaxInclusive", N(1))] if b[2] else None, [("lit", L)] if b[3] else None)
        rows.append(("node kind, datatype, facets, values: %s" % (b,), one(e), ()))
        rows.append(("in a triple constraint: node kind, datatype, facets, values: %s" % (b,), one(sh(tc(ve=e))), ()))
        rows.append(("with an action: node kind, datatype, facets, values: %s" % (b,), one(sh(tc(ve=e, acts=[("ex:act", "code"), ("http://e/b", None)]))), ()))
    out["conditions"] = rows
    # shape expressions in every context
    inner = sh(tc("http://e/z", nc(dt="ex:d")), True, ["ex:q"])
    exprs = [("reference", ("ref", T1)), ("reference to itself", ("ref", S)), ("reference to a blank label", ("ref", U)), ("reference to the start", ("ref", "start")), ("node constraint", nc("BNode", None, [("Length", 2)])),
             ("shape", inner), ("empty shape", sh()), ("shape without constraints", sh(closed=True)), ("external", ("ext",)), ("negation", ("not", ("ref", T1))), ("double negation", ("not", ("not", inner)))]
    for k in ("and", "or"):
        exprs += [("%s of %d" % (k, n), (k, [("ref", T1), inner, ("not", IRI), ("ref", U)][:n])) for n in (1, 2, 3, 4)]
        exprs += [("%s twice the same" % k, (k, [IRI, IRI])), ("%s nested" % k, (k, [IRI, ("or" if k == "and" else "and", [("ref", T1), ("not", ("ref", S))])])),
                  ("%s in itself" % k, (k, [(k, [IRI, ("ref", T1)]), ("ref", U)]))]
    ctx = [("declared", lambda e: e), ("negated", lambda e: ("not", e)), ("in a triple constraint", lambda e: sh(tc(ve=e))), ("in an inverse triple constraint with an action", lambda e: sh(tc(ve=e, inv=True, acts=[("ex:act", None)]))),
           ("first of a conjunction", lambda e: ("and", [e, IRI])), ("second of a conjunction", lambda e: ("and", [IRI, e])), ("second of a disjunction", lambda e: ("or", [IRI, e])), ("third of a disjunction", lambda e: ("or", [IRI, ("ref", T1), e]))]
    rows = []
    for d, e in exprs:
        for cd, f in ctx:
            if e[0] == "shape" and "triple" not in cd:
                pass
            rows.append(("%s, %s" % (d, cd), dict(shapes=[(S, f(e)), (T1, nc("Literal")), (U, sh(tc("http://e/u")))], start=("ref", T1)), ()))
        rows.append(("%s as the start" % d, dict(shapes=[(S, IRI), (T1, nc("Literal")), (U, sh(tc("http://e/u")))], start=e), ()))
        rows.append(("%s declared last" % d, dict(shapes=[(U, sh(tc("http://e/u"))), (T1, nc("Literal")), (S, e)], start=("ref", S)), ()))
    for ab in ((), (S,), (T1,), (S, U)):
        rows.append(("abstract: %s" % (ab,), dict(shapes=[(S, ("ref", T1)), (T1, sh(ext=None)), (U, IRI)], abstract=ab), ()))
    for cl in (None, False, True):
        for ex in (None, [], ["ex:a"], ["http://e/a", "ex:b"], ["ex:b", "ex:a", "ex:c"]):
            rows.append(("closed %s, extra %s" % (cl, ex), one(sh(tc(), cl, ex)), ()))
    for ext in ([], [T1], [T1, U], [U, T1]):
        rows.append(("extends %s" % ext, dict(shapes=[(S, sh(tc(), ext=ext)), (T1, sh(tc("http://e/q"))), (U, sh())]), ()))
    rows += [("no shapes", dict(shapes=None), ()), ("an empty list of shapes", dict(shapes=[]), ()), ("only a start", dict(shapes=None, start=IRI), ())]
    out["expressions"] = rows
    # triple expressions
    rows = []
    cards = [(mn, mx) for mn in (None, 0, 1, 2, 5) for mx in (None, -1, 0, 1, 2, 7)]
    two = [tc("http://e/p"), tc("http://e/q")]
    for mn, mx in cards:
        rows.append(("constraint with cardinality %s..%s" % (mn, mx), one(sh(tc(mn=mn, mx=mx))), ()))
        for k in ("each", "one"):
            rows.append(("%s of two with cardinality %s..%s" % (k, mn, mx), one(sh((k, two, mn, mx, None))), ()))
            rows.append(("%s of one with cardinality %s..%s" % (k, mn, mx), one(sh((k, [tc(mn=0, mx=-1)], mn, mx, None))), ()))
    for inv in (None, False, True):
        rows.append(("inverse %s" % inv, one(sh(tc(inv=inv))), ()))
        rows.append(("inverse %s with cardinality and value" % inv, one(sh(tc("http://e/r", IRI, 0, 3, inv))), ()))
    rows.append(("negated false", one(sh(tc(neg=False))), ()))
    parts = [("constraint", tc("http://e/x", IRI, 0, -1)), ("inverse constraint", tc("http://e/p", ("ref", S), 1, -1, True)), ("the same predicate", tc("http://e/p", nc("Literal"))), ("each of", ("each", two, 0, 1, None)),
             ("one of", ("one", two, 1, -1, None)), ("reference", ("tref", "http://e/t")), ("prefixed reference", ("tref", "ex:t2")), ("reference to a blank label", ("tref", "_:t3"))]
    decl = [(T1, sh(("each", [tc("http://e/a", IRI, 2, 3, True, "http://e/t"), ("one", two, None, -1, "ex:t2"), ("each", [tc("http://e/b"), tc("http://e/p", IRI)], None, None, "_:t3")], None, None, None)))]
    for d, x in parts:
        for cd, f in (("alone", lambda x: x), ("first of each", lambda x: ("each", [x, tc("http://e/y")], None, None, None)), ("second of each", lambda x: ("each", [tc("http://e/y"), x], None, None, None)),
                      ("third of each", lambda x: ("each", [tc("http://e/y"), tc("http://e/w", IRI), x], 0, 1, None)), ("second of one", lambda x: ("one", [tc("http://e/y"), x], None, None, None)),
                      ("in each in one", lambda x: ("one", [tc("http://e/y"), ("each", [tc("http://e/w", IRI), x], 1, -1, None)], None, None, None)),
                      ("twice", lambda x: ("each", [x, x], None, None, None))):
            if d in ("reference", "prefixed reference", "reference to a blank label"):
                rows.append(("%s %s, defined before" % (d, cd), dict(shapes=decl + [(S, sh(f(x), True))]), ()))
            rows.append(("%s %s" % (d, cd), dict(shapes=[(S, sh(f(x), False, ["ex:p"]))] + decl), ()))
            if "twice" not in cd or "ref" in d:
                rows.append(("%s %s, in the start" % (d, cd), dict(shapes=[(S, IRI)] + decl, start=sh(f(x))), ()))
    for w, f in (("conjunction", lambda e: ("and", [IRI, e])), ("disjunction", lambda e: ("or", [IRI, e])), ("negation", lambda e: ("not", e))):
        rows.append(("reference to an expression defined within a %s" % w, dict(shapes=[(S, sh(("tref", "http://e/t"))), (T1, f(sh(tc("http://e/a", IRI, 0, 2, None, "http://e/t"))))]), ()))
    rows.append(("reference to an expression defined in the start", dict(shapes=[(S, sh(("tref", "http://e/t")))], start=sh(tc("http://e/a", id_="http://e/t"))), ()))
    rows.append(("chain of references", dict(shapes=[(S, sh(("tref", "http://e/t1"))), (T1, sh(("each", [("tref", "http://e/t2"), tc("http://e/a")], 0, -1, "http://e/t1"))), (U, sh(tc("http://e/b", id_="http://e/t2")))]), ()))
    rows.append(("a reference twice and in sequence", dict(shapes=[(S, sh(("each", [("tref", "http://e/t"), ("one", [("tref", "http://e/t"), tc("http://e/c")], None, None, None)], None, None, None))), (T1, sh(tc("http://e/b", id_="http://e/t")))]), ()))
    out["triples"] = rows
    # schemas that mean nothing
    rows = []
    bad = [("reference to no shape", ("ref", "http://e/none")), ("undeclared prefix of a datatype", nc(dt="no:d")), ("undeclared prefix of a value", nc(vs=[("iri", "ex:a"), ("iri", "no:a")])), ("undeclared prefix of a stem", nc(vs=[("iristem", "no:a")])),
           ("undeclared prefix of a range", nc(vs=[("irirange", "no:a", None)])), ("undeclared prefix of an exclusion", nc(vs=[("irirange", None, [(False, "ex:a"), (True, "no:b")])])), ("undeclared prefix of an extra predicate", sh(extra=["ex:a", "no:b"])),
           ("undeclared prefix of an excluded IRI", nc(vs=[("irirange", "ex:", [(False, "no:b")])])),
           ("undeclared prefix of an action", sh(tc(acts=[("no:a", None)]))), ("minimum below zero", sh(tc(mn=-1))), ("maximum below minus one", sh(tc(mx=-2))), ("minimum of a group below zero", sh(("each", two, -1, None, None))),
           ("maximum of a group below minus one", sh(("one", two, None, -3, None))), ("reference to no triple expression", sh(("tref", "http://e/none"))), ("reference to itself", sh(("each", [("tref", "http://e/t"), tc()], None, None, "http://e/t"))),
           ("mutual references", sh(("each", [("each", [("tref", "http://e/t")], None, None, "http://e/t2"), ("one", [("tref", "http://e/t2")], None, None, "http://e/t")], None, None, None))),
           ("negated constraint", sh(tc(neg=True))), ("extends no shape", sh(ext=["http://e/none"])), ("label of a triple expression twice", sh(("each", [tc(id_="http://e/t"), tc("http://e/q", id_="http://e/t")], None, None, None))),
           ("label of a group twice", sh(("each", [("one", two, None, None, "http://e/t"), tc("http://e/q", id_="http://e/t")], None, None, None)))]
    for d, e in bad:
        for cd, f in ctx:
            if d == "undeclared prefix of an action" and "action" in cd:
                continue
            if d.startswith("label of") and "triple constraint" in cd:
                continue
            if d in ("reference to itself", "mutual references") and "triple constraint" in cd:
                continue
            rows.append(("%s, %s" % (d, cd), dict(shapes=[(T1, IRI), (S, f(e))]), ()))
        rows.append(("%s in the start" % d, dict(shapes=[(T1, IRI)], start=e), ()))
    for w, x in (("second of each", lambda t: ("each", [tc("http://e/y"), t], None, None, None)), ("second of one", lambda t: ("one", [tc("http://e/y"), t], None, None, None))):
        for d, t in (("minimum below zero", tc(mn=-1)), ("reference to no triple expression", ("tref", "http://e/none")), ("value of no shape", tc(ve=("ref", "http://e/none"))), ("negated", tc(neg=True))):
            rows.append(("%s, %s" % (d, w), one(sh(x(t))), ()))
    rows += [("label of a shape twice", dict(shapes=[(S, IRI), (T1, IRI), (S, nc("BNode"))]), ()), ("label of a shape twice with the same expression", dict(shapes=[(S, IRI), (S, IRI)]), ()), ("blank label twice", dict(shapes=[(U, IRI), (U, nc("BNode"))]), ()),
             ("reference to a start that is not there", one(("ref", "start")), ())]
    out["errors"] = rows
    # imports
    D = lambda n, **k: dict(iri="http://d/%d" % n, **k)
    A1 = ("http://e/A", sh(tc("http://e/a", ("ref", "http://e/B"))))
    B1 = ("http://e/B", sh(tc("http://e/b", IRI, 0, -1, None, "http://e/tb")))
    use = (S, ("and", [("ref", "http://e/A"), ("not", ("ref", "http://e/B"))]))
    rows = [("one document", dict(shapes=[use], imports=["http://d/1"]), [D(1, shapes=[A1, B1])]),
            ("two documents", dict(shapes=[use], imports=["http://d/1", "http://d/2"]), [D(1, shapes=[A1]), D(2, shapes=[B1])]),
            ("two documents, the other way round", dict(shapes=[use], imports=["http://d/2", "http://d/1"]), [D(2, shapes=[B1]), D(1, shapes=[A1])]),
            ("a document that imports another", dict(shapes=[use], imports=["http://d/1"]), [D(2, shapes=[B1]), D(1, shapes=[A1], imports=["http://d/2"])]),
            ("a document imported twice", dict(shapes=[use], imports=["http://d/1", "http://d/2"]), [D(2, shapes=[B1]), D(1, shapes=[A1], imports=["http://d/2"])]),
            ("documents that import one another", dict(shapes=[use], imports=["http://d/1"]), [D(2, shapes=[B1], imports=["http://d/1"]), D(1, shapes=[A1], imports=["http://d/2"])]),
            ("a chain of three", dict(shapes=[use, (T1, ("ref", "http://e/C"))], imports=["http://d/1"]), [D(3, shapes=[("http://e/C", nc("BNode"))]), D(2, shapes=[B1], imports=["http://d/3"]), D(1, shapes=[A1], imports=["http://d/2"])]),
            ("an imported shape refers to the importing document", dict(shapes=[("http://e/B", IRI)], imports=["http://d/1"]), [D(1, shapes=[A1])]),
            ("the start of an imported document", dict(shapes=[use], imports=["http://d/1"], start=("ref", S)), [D(1, shapes=[A1, B1], start=IRI)]),
            ("no start but that of an imported document", dict(shapes=[use], imports=["http://d/1"]), [D(1, shapes=[A1, B1], start=IRI)]),
            ("abstract shapes of an imported document", dict(shapes=[use], imports=["http://d/1"], abstract=[S]), [D(1, shapes=[A1, B1], abstract=["http://e/B"])]),
            ("triple expression of an imported document", dict(shapes=[(S, sh(("tref", "http://e/tb")))], imports=["http://d/1"]), [D(1, shapes=[B1])]),
            ("an imported document refers to a triple expression", dict(shapes=[(S, sh(tc(id_="http://e/tm")))], imports=["http://d/1"]), [D(1, shapes=[("http://e/A", sh(("tref", "http://e/tm")))])]),
            ("reference to a shape that is nowhere", dict(shapes=[use], imports=["http://d/1"]), [D(1, shapes=[A1])]),
            ("prefixes in an imported document", dict(shapes=[use], imports=["http://d/1"]), [D(1, shapes=[A1, ("http://e/B", nc(dt="ex:d", vs=[("iri", "ex:v")]))])])]
    out["imports"] = rows
    return out


RULES = {
    "values": "every kind of value of a value set is compiled to that value: IRIs and stems with their prefixes resolved, wildcards, exclusions (each one, in order, stem or not); value sets of any length",
    "conditions": "a node constraint is compiled to the conjunction of its node kind, datatype, every facet and its value set; with the actions of the triple constraint it stands in",
    "expressions": "every kind of shape expression, in every context, is compiled to that expression over its compiled parts (references, conjunctions, disjunctions, negations, shapes with closed, extra and extends, external ones); "
                   "every declared shape has its label, abstract or not",
    "triples": "every kind of triple expression, in every context, is compiled to the regular expression it states: predicate, direction, value, cardinality, groups with their cardinality, references replaced by what they refer to; "
               "the predicates of the shape are those of the expression",
    "graphs": "a compiled schema carries the graphs of recursion and of extension of its own shapes",
    "errors": "a schema with a reference to nothing, an undeclared prefix, an impossible cardinality, a cyclic reference or a label declared twice is rejected wherever that occurs",
    "imports": "the shapes of every document in the import closure are compiled, once, with the references between documents resolved; the start of an imported document is ignored",
}


def run(c):
    P = c.prog
    missing = resolve(P)
    p38.resolve(P)
    m = M(P)
    for rid, why in RULES.items():
        c.rule(rid, why)
        if missing or not m.new or not anch(c, rid, m.f[0] if len(m.f) == 1 else None, "AST2IR::compile"):
            c.anchor(rid, "types of the schema compiler: %s" % (missing or "SchemaIR::new"))
            return
    anch(c, "graphs", m.graphs[0] if len(m.graphs) == 2 else None, "build_dependency_graph and build_inheritance_graph")
    global _M
    _M = m
    g = grids()
    items = [(rid, d, sch, docs) for rid, rows in g.items() for d, sch, docs in rows]
    import multiprocessing as mp, gc
    gc.freeze()
    with mp.get_context("fork").Pool(min(8, mp.cpu_count())) as pool:
        res = pool.map(_work, items, chunksize=8)
    for (rid, d, _, _), (got, want) in zip(items, res):
        ok = got == want
        c.ob(rid, d, m.f[0].id, ok, "compiled as it says" if ok else "%s: compiled to %s where the text says %s" % (d, show(got, want), show(want, got)))
    for f in m.graphs:
        bad = [d for (rid, d, _, _), (got, want) in zip(items, res) if got[0] == "?" and f.name in str(got[1])]
        c.ob("graphs", f.name, f.id, not bad, "the graph of the compiled shapes, on %d schemas" % len(items) if not bad else "not the graph of the compiled shapes: %s" % bad[:3])
    for rid, rows in g.items():
        c.floor(rid, len(rows), "rows of the grid")


def show(x, other):
    """only the shapes in which the two differ"""
    if x[0] == "ok" and other[0] == "ok":
        return {k: v for k, v in x[1].items() if other[1].get(k) != v}
    return {"error": "an error", "?": x[-1]}.get(x[0], "a schema")


def _work(x):
    rid, d, sch, docs = x
    try:
        want = ("ok", spec(sch, docs))
    except Bad:
        want = ("error",)
    return _M.compile(sch, docs), want
