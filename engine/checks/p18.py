"""SHACL targets, value nodes, deactivation and the validation cache."""
import itertools
from vf.shacl import *
from vf import absint

TITLE = "SHACL shapes are checked against exactly their focus and value nodes, whatever was validated before"
TYPE, SUB = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "http://www.w3.org/2000/01/rdf-schema#subClassOf"
N = lambda x: ("s", "_:" + x if x in "uvUV" else '"l"' if x == "l" else "http://e/" + x)
# class graphs: (rdf:type edges, rdfs:subClassOf edges)
GRAPHS = [((), ()), (("xC",), ()), (("xD",), ()), (("xC", "yC"), ()), (("xD",), ("DC",)), (("xD", "yC"), ("DC",)), (("xD",), ("CD",)),
          (("xE", "yD"), ("DC", "ED")), (("xG", "yH"), ("DC", "ED", "GE")), (("xD", "xC"), ("DC",)), (("xD", "yE"), ("DC", "EC")),
          (("xD", "yC"), ("DC", "CD")), (("xD", "yH"), ("DE", "ED", "EC")), (("xC",), ("CC",)), (("xE",), ("DC", "ED", "EC", "DE")),
          # blank nodes as instances and as classes
          (("uC", "xC"), ()), (("uD",), ("DC",)), (("xU",), ("UC",)), (("xD", "uU"), ("DU", "UC")), (("xD",), ("DU", "UV", "VC"))]
ENG = "shacl::validator::engine::Engine"


def engine_impl(P, which, method):
    c = [f for f in P.fns.values() if f.name == method and f.kind in ("fn", "method") and "engine::Engine<" in f.id and
         ("::NativeEngine as" if which == "native" else "::SparqlEngine as") in f.id]
    return c[0] if len(c) == 1 else None


class TFrame(VFrame):
    const_iri = True

    def __init__(self, prog, which, edges, **kw):
        super().__init__(prog, which, extra=[
            (r"engine::Engine(<.*>)?(>)?::(target_node|target_class|target_subject_of|target_object_of|implicit_target_class|path)$", self.h_engine),
            (r"PartialEq(<.*>)?(>)?::(eq|ne)$", self.h_eq),
            (r"NeighsRDF::triples$", self.h_all)], **kw)
        self.edges = edges

    def h_engine(self, I, site, name, callee, args, st):
        m = name.rsplit("::", 1)[1]
        if callee[0] == "f" and callee[1] in self.prog.fns and self.prog.fns[callee[1]].id == getattr(self, "_in", None):
            return None
        f = engine_impl(self.prog, self.which, m)
        if f is None:
            return None
        return self.call_into(I, site, f, args, st)

    def call_into(self, I, site, f, args, st):
        outs = I.exec_fn(f, tuple(I._noptr(I.deref(a, st)) for a in args), (), st.G, (), ())
        if outs is None:
            return None
        res = []
        for r, _, G in outs:
            n = st.fork()
            n.G.update(G)
            res.append((r, n))
        return res

    def h_eq(self, I, site, name, callee, args, st):
        """constant IRIs are equal iff their texts are"""
        a, b = (iri_text(I, I.deref(x, st)) for x in args)
        if a is None or b is None:
            return None
        return [(("b", (a == b) == name.endswith("eq")), st)]

    def tri(self, s, p, o):
        return ("a", "qtriple", "", (self.I.sym("subj", s), ("s", p), o))

    def all_triples(self):
        return [self.tri(s, p, o) for (s, p), os in sorted(self.edges.items(), key=str) for o in os]

    def h_all(self, I, site, name, callee, args, st):
        return [(Ok(("it", ("L", tuple(self.all_triples())))), st)]

    def h_store(self, I, site, name, callee, args, st):
        m = name.rsplit("::", 1)[1]
        a = [I.deref(x, st) for x in args]
        if m == "triples_with_predicate":
            p = self.predname(a[1])
            return [(Ok(("it", ("L", tuple(self.tri(s, p, o) for (s, q), os in sorted(self.edges.items(), key=str) if q == p for o in os)))), st)]
        if m == "subjects_for":
            p = self.predname(a[1])
            return [(Ok(("L", tuple(dict.fromkeys(s for (s, q), os in sorted(self.edges.items(), key=str) if q == p for o in os if o == a[2])))), st)]
        return super().h_store(I, site, name, callee, args, st)

    def engine_value(self, indexed):
        """the engine, without and with its index of the store"""
        I = self.I
        nm = "NativeEngine" if self.which == "native" else "SparqlEngine"
        v = build(I, self.prog, [f.id for f in self.prog.fns.values() if f.name == "new" and f.id.endswith("::%s::new" % nm)][0], [])
        if not indexed:
            return v
        f = engine_impl(self.prog, self.which, "build_indexes")
        outs = I.exec_fn(f, (("p", -1, ()), self.store), (v,), {}, (), ())
        vs = {o[1][0] for o in outs}
        return vs.pop() if len(vs) == 1 else None

    def nodes_of(self, o):
        v = o[0]
        if v[0] == "a" and v[2] == "Err":
            return "error"
        if v[0] == "a" and v[2] == "Ok":
            x = v[3][0]
            while x[0] == "a" and x[3]:
                x = x[3][0]
            if x[0] == "L":
                return frozenset(x[1])
        return "not exact: " + self.I.show(v)[:200]


def up(sub, x):
    seen, fr = {x}, [x]
    while fr:
        y = fr.pop()
        for a, b in sub:
            if a == y and b not in seen:
                seen.add(b)
                fr.append(b)
    return seen


def run(c):
    P = c.prog
    c.rule("targets", "Engine::focus_nodes: the focus nodes of a shape are the union of its targets: the node itself (a blank node is an error), the SHACL instances of the class over any number of "
           "rdfs:subClassOf steps, the subjects or the objects of the predicate; with and without the class index")
    fns = [f for f in P.fns.values() if f.name == "focus_nodes" and f.kind in ("fn", "method") and f.id.endswith("engine::Engine::focus_nodes")]
    if c.anchor("targets", "focus_nodes", fns, "Engine::focus_nodes"):
        targets(c, fns[0])
    shapes(c)
    validates(c)
    cache(c)
    from checks import p16
    p16.graphs(c, "^(candidate/(target|type|value of property|nested|reifier)|target|implicit|deactivated|reifier|path)", 35, False)
    c.floor("targets", 150, "engines x index x targets x graphs")


def shape_value(c, F, kind, **kw):
    """IRShape built through its builders; kw: builder name -> value"""
    I, P = F.I, F.prog
    base = "shacl::ir::node_shape::IRNodeShape::" if kind == "node" else "shacl::ir::property_shape::IRPropertyShape::"
    no = [("a", p, "No", ()) for p in P.adts if p.endswith("::ClosedInfo") and p.startswith("shacl")]
    v = build(I, P, base + "new", [I.sym("in", "ID")] + ([] if kind == "node" else [F.path, no[0]]))
    for k, x in kw.items():
        v = v and build(I, P, base + "with_" + k, [v, x])
    return v and build(I, P, "shacl::ir::shape::IRShape::%s_shape" % kind, [v])


def accessor(F, m, shape):
    f = F.prog.fns.get("shacl::ir::shape::IRShape::" + m)
    if f is None:
        return None
    return {o[0] for o in F.I.exec_fn(f, (shape,), (), {}, (), ())}


def shapes(c):
    """accessors of IRShape and value nodes"""
    P = c.prog
    c.rule("accessors", "the accessors of a compiled shape return the component of the shape they name, for node shapes and property shapes; the default severity is Violation")
    for kind in ("node", "property"):
        F = Frame0(P)
        I = F.I
        S = lambda n: I.sym("in", n)
        vals = dict(components=S("components"), targets=S("targets"), property_shapes=S("property_shapes"), deactivated=S("deactivated"),
                    severity=Some(S("severity")), message=Some(S("message")), name=Some(S("name")), description=Some(S("description")))
        if kind == "property":
            vals["reifier_info"] = Some(S("reifier_info"))
        sh = shape_value(c, F, kind, **vals)
        if sh is None:
            c.ob("accessors", kind + "/build", "-", False, "cannot build a %s shape" % kind)
            continue
        want = dict(vals, id=S("ID"), path=Some(F.path) if kind == "property" else NONE, severity=S("severity"))
        want.setdefault("reifier_info", NONE)
        for m, x in sorted(want.items()):
            got = accessor(F, m, sh)
            c.ob("accessors", "%s/%s" % (kind, m), "IRShape::" + m, got == {x}, "IRShape::%s of a %s shape returns %s, not %s" % (
                m, kind, got and [I.show(y)[:80] for y in got], I.show(x)[:80]))
        sh = shape_value(c, F, kind)
        got = accessor(F, "severity", sh)
        c.ob("accessors", kind + "/severity-default", "IRShape::severity", got is not None and len(got) == 1 and list(got)[0][0] == "a" and list(got)[0][2] == "Violation",
             "the default severity of a %s shape is %s" % (kind, got and [I.show(y)[:80] for y in got]))
    c.floor("accessors", 24, "accessors of the two kinds of shape")

    c.rule("valuenodes", "the value nodes of a focus node are the node itself for a node shape and the nodes reached over the path for a property shape; every focus node has its entry")
    fn = [f for f in P.fns.values() if f.name == "value_nodes" and "<shacl::ir::shape::IRShape as" in f.id and f.kind in ("fn", "method")]
    if c.anchor("valuenodes", "value_nodes", fn, "the value nodes of an IRShape"):
        for w in ("native", "sparql"):
            for kind in ("node", "property"):
                for nf in range(0, 3):
                    for nv in range(0, 3):
                        F = Frame0(P, w)
                        I = F.I
                        fs = [I.sym("in", "F%d" % i) for i in range(nf)]
                        vs = {f: [I.sym("in", "v%d_%d" % (i, j)) for j in range(nv)] for i, f in enumerate(fs)}
                        F.reached = vs
                        sh = shape_value(c, F, kind)
                        outs = absint.run(P, fn[0], [sh, F.store, F.fnodes(fs), F.engine_value(False)], interp=I)[1]
                        want = sorted((I.show(f), tuple(I.show(v) for v in (vs[f] if kind == "property" else [f]))) for f in fs)
                        got = []
                        for o in outs:
                            v = strip(o[0], "Ok")
                            got.append(sorted((I.show(t[1][0]), tuple(sorted(I.show(x) for x in seq(t[1][1])))) if t[0] == "t" and seq(t[1][1]) is not None else ("?", I.show(t)) for t in v)
                                       if v is not None else "not exact: " + I.show(o[0])[:100])
                        c.ob("valuenodes", "%s/%s/%d/%d" % (w, kind, nf, nv), fn[0].where(), bool(got) and all(g == want for g in got),
                             "the value nodes must be %s but a path yields %s" % (want, got[:2]))
        c.floor("valuenodes", 36, "engines x shapes x focus nodes x value nodes")


def seq(v):
    while v[0] == "a" and len(v[3]) == 1:
        v = v[3][0]
    return v[1] if v[0] == "L" else None


def strip(v, ok):
    return seq(v[3][0]) if v[0] == "a" and v[2] == ok else None


class Frame0(TFrame):
    """frame for the validation of one shape: constraint components, inner validation, cache and paths are named"""

    def __init__(self, prog, which="native", **kw):
        super().__init__(prog, which, {}, **kw)
        self.reached = {}
        h = [(r"objects_for_shacl_path$", self.h_path), (r"^dashmap::|dashmap::mapref", self.h_dash),
             (r"^std::collections::hash::map::HashMap.*::(insert|get|contains_key|remove|extend|clear)$", self.h_inner)]
        self.I.pol.distinct = self.distinct
        self.I.pol.handlers = [(re.compile(rx), f) for rx, f in h] + self.I.pol.handlers

    def h_shape_acc(self, I, site, name, callee, args, st):
        return None

    def h_path(self, I, site, name, callee, args, st):
        v = I.deref(args[1], st)
        p = I.deref(args[2], st)
        if v not in self.reached or p != self.path:
            return [(Ok(I.sym("reached", v, p)), st)]
        return [(Ok(("L", tuple(self.reached[v]))), st)]

    # the cache: a map shared behind immutable references; its content is kept with the facts of a path
    def h_dash(self, I, site, name, callee, args, st):
        m = name.rsplit("::", 1)[1]
        if m in ("new", "with_capacity", "default"):
            ns = st.fork()
            y = I.sym("dashmap", sum(1 for k in st.G if k[0] == "dm"))
            ns.G[("dm", y)] = ()
            return [(y, ns)]
        v = I.deref(args[0], st)
        t = I.tag(v) if v[0] == "y" else None
        if not t:
            return None
        if t[0] == "dashmap":
            cur = dict(st.G.get(("dm", v), ()))
            if m == "clone":
                return None
            k = I.deref(args[1], st) if len(args) > 1 else None
            if m == "entry":
                return [(I.sym("dmentry", v, k), st)]
            if m in ("get", "get_mut"):
                return [(Some(I.sym("dmref", v, k)) if k in cur else NONE, st)]
            if m == "contains_key":
                return [(("b", k in cur), st)]
            if m in ("insert", "remove"):
                ns = st.fork()
                old = cur.pop(k, None)
                if m == "insert":
                    cur[k] = args[2]
                ns.G[("dm", v)] = tuple(sorted(cur.items(), key=str))
                return [(NONE if old is None else Some(old), ns)]
            return None
        if t[0] == "dmentry":
            _, mp, k = t
            cur = dict(st.G.get(("dm", mp), ()))
            if m in ("or_default", "or_insert", "or_insert_with"):
                outs = [(("L", ()), st)] if m == "or_default" else [(args[1], st)] if m == "or_insert" else None
                if outs is None:
                    return None
                ns = st.fork()
                if k not in cur:
                    cur[k] = outs[0][0]
                    ns.G[("dm", mp)] = tuple(sorted(cur.items(), key=str))
                return [(I.sym("dmref", mp, k), ns)]
        if t[0] == "dmref":
            if m in ("value", "deref"):
                return [(dict(st.G[("dm", t[1])])[t[2]], st)]
            if m in ("value_mut", "deref_mut"):
                return [(v, st)]
        return None

    def h_inner(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        t = I.tag(v) if v[0] == "y" else None
        if not t or t[0] != "dmref":
            return None
        m = name.rsplit("::", 1)[1]
        cur = dict(st.G[("dm", t[1])])
        inner = cur[t[2]]
        if inner[0] != "L" or not all(x[0] == "t" for x in inner[1]):
            return None
        d = dict((x[1][0], x[1][1]) for x in inner[1])
        k = I.deref(args[1], st) if len(args) > 1 else None
        if m == "get":
            return [(Some(d[k]) if k in d else NONE, st)]
        if m == "contains_key":
            return [(("b", k in d), st)]
        ns = st.fork()
        old = d.pop(k, None)
        if m == "insert":
            d[k] = I.deref(args[2], st)
        elif m == "clear":
            d = {}
        elif m != "remove":
            return None
        cur[t[2]] = ("L", tuple(("t", x) for x in sorted(d.items(), key=str)))
        ns.G[("dm", t[1])] = tuple(sorted(cur.items(), key=str))
        return [(NONE if old is None else Some(old), ns)]

    def distinct(self, I, a, b):
        """the nodes of a configuration are pairwise distinct"""
        x, y = self.node(a), self.node(b)
        return x is not None and y is not None and x != y

    def node(self, v):
        t = self.I.tag(v) if v[0] == "y" else None
        if t and t[0] == "obj":
            return t[1]
        return v if t and t[0] == "in" else None


class VFrame2(Frame0):
    """one call of Validate::validate. cfg: components, inner (nested property shapes), reifier"""

    def __init__(self, prog, targets, own, comps, inner, values, cached):
        super().__init__(prog)
        I = self.I
        h = [(r"focus_nodes_ops::FocusNodesOps.*::focus_nodes$", lambda I, s, n, c, a, st: [(Ok(self.fnodes(self.own)), st)]),
             (r"IRSchema::get_idx$", self.h_idx), (r"Engine(<.*>)?(>)?::get_cached_results$", self.h_cached), (r"Engine(<.*>)?(>)?::has_validated$", self.h_hasv),
             (r"value_nodes_ops::ValueNodesOps.*::value_nodes$", self.h_values), (r"Engine(<.*>)?(>)?::evaluate$", self.h_eval),
             (r"ValidationResult::focus_node$", self.h_focus), (r"Engine(<.*>)?(>)?::record_validation$", self.h_record),
             (r"NeighsRDF::reifiers_of_triple$", self.h_reifiers), (r"ReifierInfo::(reification_required|reifier_shape|predicate)$", self.h_rinfo),
             (r"Validate(<.*>)?(>)?::validate$", self.h_validate)]
        I.pol.handlers = [(re.compile(rx), f) for rx, f in h] + I.pol.handlers
        self.own, self.targets_, self.values, self.cached_ = own, targets, values, cached
        self.comps = [I.sym("in", x) for x in comps]
        self.inner = [I.sym("in", x) for x in inner]
        self.idx = I.sym("in", "IDX")
        self.reifiers = {}

    def h_idx(self, I, site, name, callee, args, st):
        y = I.sym("registered")
        return [((Some(self.idx) if b else NONE), s) for b, s in I.split_bool(y, st)]

    def h_cached(self, I, site, name, callee, args, st):
        n = self.node(I.deref(args[1], st))
        if I.deref(args[2], st) != self.idx or n is None:
            return [(Some(("L", (I.sym("result", "wrong cache entry"),))), st)]
        return [(Some(("L", tuple(self.cached_[n]))) if n in self.cached_ else NONE, st)]

    def h_hasv(self, I, site, name, callee, args, st):
        n = self.node(I.deref(args[1], st))
        return [(("b", n in self.cached_), st)]

    def h_values(self, I, site, name, callee, args, st):
        fs = seq(I.deref(args[2], st))
        if fs is None:
            return None
        return [(Ok(("a", "shacl::validator::nodes::value::ValueNodes", "", (("L", tuple(("t", (f, self.fnodes(self.values[f]))) for f in fs)),))), st)]

    def h_eval(self, I, site, name, callee, args, st):
        vn = [seq(I.deref(a, st)) for a in args if I.deref(a, st)[0] == "a" and I.deref(a, st)[1].endswith("ValueNodes")]
        cp = [I.deref(a, st) for a in args if I.deref(a, st) in self.comps]
        if len(vn) != 1 or vn[0] is None or len(cp) != 1:
            return None
        out = [((), st)]
        for t in vn[0]:
            f = t[1][0]
            nx = []
            for rs, s in out:
                for b, s2 in I.split_bool(I.sym("violates", cp[0], f), s):
                    nx.append((rs + ((I.sym("result", cp[0], f),) if b else ()), s2))
            out = nx
        return [(Ok(("L", rs)), s) for rs, s in out]

    def h_validate(self, I, site, name, callee, args, st):
        if site.fn.name == "<entry>":
            return None
        sh = I.deref(args[0], st)
        t = I.tag(sh) if sh[0] == "y" else None
        if not t or t[0] != "shape":
            return None
        tg = I.deref(args[3], st)
        ns = seq(I.deref(tg[3][0], st)) if tg[0] == "a" and tg[2] == "Some" else None
        if ns is None:
            return [(Ok(("L", (I.sym("result", "nested validation without its focus nodes"),))), st)]
        out = [((), st)]
        for n in ns:
            nx = []
            for rs, s in out:
                for b, s2 in I.split_bool(I.sym("conforms", t[1], n), s):
                    nx.append((rs + (() if b else (I.sym("result", t[1], n),)), s2))
            out = nx
        return [(Ok(("L", rs)), s) for rs, s in out]

    def h_focus(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        t = I.tag(v) if v[0] == "y" else None
        return [(self.obj(t[2]), st)] if t and t[0] == "result" and len(t) == 3 else None

    def h_record(self, I, site, name, callee, args, st):
        n = self.node(I.deref(args[1], st))
        rs = I.deref(args[3], st)
        ok = n is not None and I.deref(args[2], st) == self.idx and rs[0] == "L"
        ns = st.fork()
        ns.G[("rec", n if ok else "?")] = tuple(rs[1]) if ok else I.show(rs)
        return [(absint.UNIT, ns)]

    def h_rinfo(self, I, site, name, callee, args, st):
        m = name.rsplit("::", 1)[1]
        if m == "reification_required":
            return [(I.sym("required"), st)]
        return [(("L", (I.sym("in", "r1"),)) if m == "reifier_shape" else N("p"), st)]

    def h_reifiers(self, I, site, name, callee, args, st):
        t = I.deref(args[1], st)
        rs = self.reifiers.get(t[3][2]) if t[0] == "a" and t[1] == "qtriple" else None
        return None if rs is None else [(Ok(("it", ("L", tuple(I.sym("subj", r) for r in rs)))), st)]

    def ckey(self, r):
        """a result as text"""
        I = self.I
        t = I.tag(r) if r[0] == "y" else None
        if t and t[0] == "result":
            return tuple(I.show(x) if isinstance(x, tuple) else x for x in t[1:])
        d = fields(self.prog, r)
        if d:
            c_ = (iri_text(I, d["constraint_component"]) or "?").replace(SH, "sh:")
            f = self.node(d["focus_node"])
            return (c_, I.show(f) if f else "?")
        return ("?", I.show(r)[:60])

    def verdict(self, o):
        """(results as a sorted tuple | 'error', {node: sorted results recorded})"""
        I = self.I
        rs = results(o)
        rec = []
        for k, v in o[2].items():
            if k[0] == "rec":
                rec.append((I.show(k[1]) if isinstance(k[1], tuple) else k[1], tuple(sorted(self.ckey(r) for r in v)) if isinstance(v, tuple) else v))
        if rs is None:
            return ("not exact: " + I.show(o[0])[:200], ())
        if rs == "err":
            return ("error", ())
        return (tuple(sorted(self.ckey(r) for r in rs)), tuple(sorted(rec)))


def validates(c):
    P = c.prog
    c.rule("validate", "Validate::validate of a shape: a deactivated shape has no results; otherwise the results are, for each focus node, the recorded results if the pair was validated before, else the "
           "results of every component, of every nested property shape for its value nodes and of the reifier shapes; what is recorded for a focus node is all of its results")
    fn = [f for f in P.fns.values() if f.name == "validate" and "<shacl::ir::shape::IRShape as" in f.id and f.kind in ("fn", "method")]
    if not c.anchor("validate", "validate", fn, "Validate::validate of an IRShape"):
        return
    fn = fn[0]
    confs = []
    for kind in ("node", "property"):
        for tg in ("given", "own"):
            for focus in ((), ("F",), ("F", "G")):
                for comps, inner in (((), ()), (("c1",), ()), ((), ("s1",)), (("c1",), ("s1",)), (("c1", "c2"), ()), ((), ("s1", "s2"))):
                    for cached in ((), ("F",), ("F", "G")):
                        if not set(cached) <= set(focus) or (len(focus) == 2 and len(comps) + len(inner) > 1 and cached):
                            continue
                        confs.append((kind, tg, focus, comps, inner, cached))
    for kind, tg, focus, comps, inner, cached in confs:
        F = VFrame2(P, None, [], comps, inner, {}, {})
        I = F.I
        fs = [I.sym("in", x) for x in focus]
        other = I.sym("in", "other")
        # value nodes: the node itself, or nodes reached over the path (v shared between the focus nodes)
        vals = {f: [f] if kind == "node" else ([I.sym("in", "v"), I.sym("in", "w")] if i == 0 else [I.sym("in", "v")]) for i, f in enumerate(fs)}
        vals[other] = []
        F.values, F.own = vals, (fs if tg == "own" else [other])
        F.cached_ = {f: [I.sym("result", "recorded", f)] for f in fs if I.show(f) in cached}
        act = I.sym("in", "deactivated")
        sh = shape_value(c, F, kind, components=("L", tuple(F.comps)), property_shapes=("L", tuple(F.inner)), deactivated=act)
        key = "%s/%s/%s/%s/%s/%s" % (kind, tg, "".join(focus) or "-", "".join(comps) or "-", "".join(inner) or "-", "".join(cached) or "-")
        if sh is None:
            c.ob("validate", key, "-", False, "cannot build the shape")
            continue
        atoms = [bool_atom(I, "deactivated", act), bool_atom(I, "registered", I.sym("registered"))]
        atoms += [bool_atom(I, "violates(%s,%s)" % (I.show(x), I.show(f)), I.sym("violates", x, f)) for x in F.comps for f in fs]
        ns = sorted({n for f in fs for n in vals[f]}, key=str)
        atoms += [bool_atom(I, "conforms(%s,%s)" % (I.show(x), I.show(n)), I.sym("conforms", x, n)) for x in F.inner for n in ns]

        def spec(a, F=F, I=I, fs=fs, vals=vals):
            if a["deactivated"]:
                return ((), ())
            rs, rec = [], []
            for f in fs:
                if a["registered"] and f in F.cached_:
                    rs.append(("recorded", I.show(f)))
                    continue
                mine = [(I.show(x), I.show(f)) for x in F.comps if a["violates(%s,%s)" % (I.show(x), I.show(f))]]
                mine += [(I.show(x), I.show(n)) for x in F.inner for n in vals[f] if not a["conforms(%s,%s)" % (I.show(x), I.show(n))]]
                rs += mine
                if a["registered"]:
                    rec.append((I.show(f), tuple(sorted(mine))))
            return (tuple(sorted(rs)), tuple(sorted(rec)))
        judge(c, F, fn, sh, atoms, spec, key, fs, tg, "a %s shape with %s focus nodes, components %s, nested shapes %s, validated before: %s" % (kind, list(focus), list(comps), list(inner), list(cached)))
    # reifiers
    for nt in range(0, 3):
        for nr in range(0, 3):
            F = VFrame2(P, None, [], (), (), {}, {})
            I = F.I
            f = I.sym("in", "F")
            F.values = {f: []}
            os = [I.sym("in", "o%d" % i) for i in range(nt)]
            F.edges = {(f, "http://e/p"): os}
            F.reifiers = {o: [I.sym("in", "q%d%d" % (i, j)) for j in range(nr if i == 0 else 1)] for i, o in enumerate(os)}
            sh = shape_value(c, F, "property", reifier_info=Some(I.sym("in", "RINFO")))
            atoms = [kind_atom(F, f), bool_atom(I, "required", I.sym("required")), bool_atom(I, "registered", I.sym("registered"))]
            r1 = I.sym("in", "r1")
            atoms += [bool_atom(I, "conforms(%s)" % I.show(q), I.sym("conforms", r1, q)) for o in os for q in F.reifiers[o]]

            def spec(a, F=F, I=I, f=f, os=os):
                if a["kind(F)"] == "Literal":
                    return None
                rs = []
                for o in os:
                    if not F.reifiers[o] and a["required"]:
                        rs.append(("sh:ReifierShapeConstraintComponent", "F"))
                    rs += [("r1", I.show(q)) for q in F.reifiers[o] if not a["conforms(%s)" % I.show(q)]]
                rs = tuple(sorted(rs))
                return (rs, (("F", rs),) if a["registered"] else ())
            judge(c, F, fn, sh, atoms, spec, "reifier/%d/%d" % (nt, nr), [f], "given", "a property shape with a reifier shape, %d triples, %d reifiers" % (nt, nr))
    c.floor("validate", 129, "configurations")


def judge(c, F, fn, sh, atoms, spec, key, fs, tg, text):
    I = F.I
    args = [None] * fn.argc
    for i in range(fn.argc):
        t = fn.local_ty(i + 1)["s"]
        if "FocusNodes" in t:
            args[i] = Some(F.fnodes(fs)) if tg == "given" else NONE
        elif "Option<&" in t:
            args[i] = Some(I.sym("in", "SOURCE"))
        elif "IRSchema" in t:
            args[i] = F.schema
        elif "dyn " in t:
            args[i] = I.sym("in", "RUNNER")
        elif "IRShape" in t:
            args[i] = sh
        else:
            args[i] = F.store
    outs = absint.run(F.prog, fn, args, interp=I)[1]

    def same(want, got):
        # not recording is no error, recording anything else is
        return got[0] == want[0] and all(r in want[1] for r in got[1])
    bad, rows = decide(outs, atoms, spec, F.verdict, same)
    c.scope["rows"] = c.scope.get("rows", 0) + rows
    msg = ""
    if bad:
        a, w, g = bad[0]
        msg = "%s; for %s the results and records must be %s but a path yields %s (%d of %d rows)" % (text, show_asg(a) or "every input", w, sorted(g, key=str)[:2], len(bad), rows)
    c.ob("validate", key, fn.where(), not bad and rows > 0, msg)


def cache(c):
    P = c.prog
    c.rule("cache", "a validation result recorded for (node, shape) is what the cache answers for that pair, and for no other pair; both engines, and engines forked from them")
    for w in ("native", "sparql"):
        rec, get, has, fork = (engine_impl(P, w, m) for m in ("record_validation", "get_cached_results", "has_validated", "fork"))
        if not all((rec, get, has, fork)):
            c.ob("cache", w + "/anchor", "-", False, "cannot find the cache methods of the %s engine" % w)
            continue
        keys = [("n1", "i1"), ("n1", "i2"), ("n2", "i1")]
        for seqn in [x for k in range(0, 4) for x in itertools.product(range(3), repeat=k)]:
            F = Frame0(P, w)
            I = F.I
            new = [f for f in P.fns.values() if f.name == "new" and f.id.endswith("::NativeEngine::new" if w == "native" else "::SparqlEngine::new")][0]
            st = [(o[0], o[2]) for o in I.exec_fn(new, (), (), {}, (), ())]
            want = {}
            for j, k in enumerate(seqn):
                r = I.sym("in", "res%d" % j)
                want[keys[k]] = r
                nx = []
                for e, G in st:
                    for o in I.exec_fn(rec, (("p", -1, ()), I.sym("in", keys[k][0]), I.sym("in", keys[k][1]), ("L", (r,))), (e,), G, (), ()):
                        nx.append((o[1][0], o[2]))
                st = nx
            ok, msg = bool(st), ""
            for k in keys:
                for e, G in st + [(q[0], q[2]) for e0, G0 in st for q in I.exec_fn(fork, (e0,), (), G0, (), ())]:
                    for o in I.exec_fn(get, (e, I.sym("in", k[0]), I.sym("in", k[1])), (), G, (), ()):
                        exp = Some(("L", (want[k],))) if k in want else NONE
                        if o[0] != exp:
                            ok, msg = False, "after recording %s the cache answers %s for %s instead of %s" % ([keys[q] for q in seqn], I.show(o[0])[:120], k, I.show(exp))
                    for o in I.exec_fn(has, (e, I.sym("in", k[0]), I.sym("in", k[1])), (), G, (), ()):
                        if o[0] != ("b", k in want):
                            ok, msg = False, "after recording %s has_validated answers %s for %s" % ([keys[q] for q in seqn], I.show(o[0])[:120], k)
            c.ob("cache", "%s/%s" % (w, "".join(map(str, seqn)) or "-"), get.where(), ok, msg)
    c.floor("cache", 80, "engines x sequences of records")


def decide_targets(c, F, fn, eng, tg, atoms, spec, key, text):
    I = F.I
    I.pol.budget = 400000
    args = [eng, F.store, ("L", tuple(tg))]
    outs = absint.run(F.prog, fn, args, interp=I)[1]
    bad, rows = decide(outs, atoms, spec, F.nodes_of)
    c.scope["rows"] = c.scope.get("rows", 0) + rows
    msg = ""
    sh = lambda x: sorted(I.show(y) for y in x) if not isinstance(x, str) else x
    if bad:
        a, w, g = bad[0]
        msg = "%s; for %s the focus nodes must be %s but a path yields %s%s" % (text, show_asg(a) or "every input", sh(w), [sh(x) for x in g],
                                                                                "; ".join(sorted(F.problems)))
    c.ob("targets", key, fn.where(), not bad and rows > 0, msg)


def targets(c, fn):
    P = c.prog
    adt = [p for p in P.adts if p.endswith("types::target::Target") and p.startswith("shacl")]
    T_ = lambda n, v: ("a", adt[0], n, (v,))
    for w, indexed in (("native", False), ("native", True), ("sparql", False)):
        tag = w + ("+index" if indexed else "")
        for i, (types, sub) in enumerate(GRAPHS):
            edges = {}
            for a, b in types:
                edges.setdefault((N(a), TYPE), []).append(N(b))
            for a, b in sub:
                edges.setdefault((N(a), SUB), []).append(N(b))
            want = frozenset(N(a) for a, b in types if "C" in up(sub, b))
            for kind in ("Class", "ImplicitClass"):
                F = TFrame(P, w, edges)
                eng = F.engine_value(indexed)
                if eng is None:
                    c.ob("targets", "%s/engine" % tag, fn.where(), False, "cannot build the engine")
                    return
                decide_targets(c, F, fn, eng, [T_(kind, F.obj(N("C")))], [], lambda a, want=want: want, "%s/%s/%d" % (tag, kind, i),
                               "target %s C in the %s engine with types %s and subclasses %s" % (kind, tag, list(types), list(sub)))
        F = TFrame(P, w, {})
        o = F.I.sym("in", "o")
        F._objs = [o]
        decide_targets(c, F, fn, F.engine_value(indexed), [T_("Node", o)], [kind_atom(F, F.term(o))],
                       lambda a, F=F, o=o: "error" if "BlankNode" in a.values() else frozenset({F.term(o)}), "%s/Node" % tag, "a target node in the %s engine" % tag)
        for n in range(0, 7):
            for kind in ("SubjectsOf", "ObjectsOf"):
                E_ = [("x", "p", "y"), ("x", "q", "z"), ("y", "p", "z"), ("x", "p", "l"), ("u", "p", "v"), ("z", "q", "l")][:n]
                edges = {}
                for s, p, ob in E_:
                    edges.setdefault((N(s), "http://e/" + p), []).append(N(ob))
                F = TFrame(P, w, edges)
                want = frozenset(N(s if kind == "SubjectsOf" else ob) for s, p, ob in E_ if p == "p")
                decide_targets(c, F, fn, F.engine_value(indexed), [T_(kind, N("p"))], [], lambda a, want=want: want, "%s/%s/%d" % (tag, kind, n),
                               "target %s p in the %s engine over %s" % (kind, tag, E_))
        # several targets: the union
        edges = {(N("x"), TYPE): [N("C")], (N("y"), "http://e/p"): [N("z")]}
        for k in range(0, 4):
            for comb in itertools.permutations(range(4), k):
                if k == 3 and comb[0] > 1:
                    continue
                F = TFrame(P, w, edges)
                all_ = [(T_("Class", F.obj(N("C"))), {N("x")}), (T_("Node", F.obj(N("n"))), {N("n")}), (T_("SubjectsOf", N("p")), {N("y")}), (T_("ObjectsOf", N("p")), {N("z")})]
                want = frozenset().union(*[all_[j][1] for j in comb])
                decide_targets(c, F, fn, F.engine_value(indexed), [all_[j][0] for j in comb], [], lambda a, want=want: want, "%s/union/%s" % (tag, "".join(map(str, comb)) or "-"),
                               "%d targets in the %s engine" % (k, tag))
