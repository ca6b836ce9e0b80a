"""P21: recursive ShEx validation: what is scheduled, assumed, remembered and reported (tables over opaque verdicts)."""
import itertools, re
from vf import absint, natives
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *
from checks.p22 import plain, table, anch
from checks.p19 import *
from checks.p19 import T2

TITLE = "ShEx recursion: no verdict rests on an undischarged assumption"
ENGINE, ATOM = "shex_validation::engine::Engine", "shex_validation::atom::Atom"
PAIR = lambda n, i: T2(node(n), idx(i))


def engine(P, I, memo=(), touched=False, pending=(), checked=(), reasons=(), errors=()):
    return struct(P, ENGINE, checked=lst(checked), pending=lst(pending), config=I.sym("in", "CONFIG"), step_counter=("i", 0), reasons=lst(reasons), errors=lst(errors),
                  typing=lst(T2(k, v) for k, v in memo), hyp_touched=("b", touched))


def set_field(P, I, ptr, st, name, v):
    cell, proj = natives.final_ptr(I, ptr, st)
    cur = I.read_cell(cell, proj, st)
    i = [f[0] for f in P.adts[ENGINE]["v"][0]["f"]].index(name)
    I.write_cell(cell, proj, ("a", cur[1], cur[2], cur[3][:i] + (v,) + cur[3][i + 1:]), st)


V = {"pass": right(lst([("s", "R")])), "fail": left(lst([("s", "E")]))}


def prove(c, P):
    rid = "prove"
    c.rule(rid, "a pair is decided once its dependencies are: each dependency that is not being proved already is proved, the verdict is taken with exactly the proved ones that passed plus the assumed ones, "
                "it is remembered only if neither it nor anything it used rests on an assumption, and the assumption is withdrawn afterwards")
    f = anch(c, rid, efn(P, "prove", ["mEngine", "rNode", "rShapeLabelIdx", "mVec", "rSchemaIR", "rR"]), "prove")
    d = anch(c, rid, efn(P, "dep", ["rEngine", "rNode", "rShapeLabelIdx", "rSchemaIR", "rR"]), "dep")
    k = anch(c, rid, efn(P, "check_node_idx", ["mEngine", "rNode", "rShapeLabelIdx", "rSchemaIR", "rR", "mRefTyping", "mVec"]), "check_node_idx")
    if not (f and d and k):
        return
    st = {}
    me = (("s", "n"), 1)

    def key(I, args, s):
        return I.deref(args[1], s)[3][0][3][0][1], I.deref(args[2], s)[3][0][1]

    def h_dep(I, site, name, callee, args, s):
        if plain(callee[1]) != d.id and plain(name) != d.id:
            return None
        st["dep_of"] = key(I, args, s)
        return [(Ok(lst(PAIR(*x) for x in st["dep"])) if st["dep"] is not None else Err(("s", "DEP")), s)]

    def h_prove(I, site, name, callee, args, s):
        if plain(callee[1]) != f.id and plain(name) != f.id:
            return None
        w = key(I, args, s)
        hyp = I.deref(args[3], s)
        ns = s.fork()
        ns.G[("proved",)] = tuple(sorted(s.G.get(("proved",), ()) + (w,)))
        ns.G[("hyps",)] = s.G.get(("hyps",), ()) + (hyp[1] if hyp[0] == "L" else "?",)
        r, touch = st["sub"].get(w, ("fail", False))
        if touch:
            set_field(P, I, args[0], ns, "hyp_touched", TRUE)
        return [(ERR if r == "error" else Ok(V[r]), ns)]

    def h_check(I, site, name, callee, args, s):
        if plain(callee[1]) != k.id and plain(name) != k.id:
            return None
        ty = fields(P, I.deref(args[5], s))
        ns = s.fork()
        p = ty["passed"]
        ns.G[("typing",)] = tuple(sorted((x[1][0][3][0][3][0][1], x[1][1][3][0][1]) for x in p[1])) if p[0] == "L" else "?"
        ns.G[("checked",)] = key(I, args, s)
        ns.G[("hypc",)] = I.deref(args[6], s)
        if st["desc_touch"]:
            set_field(P, I, args[0], ns, "hyp_touched", TRUE)
        return [(ERR if st["own"] == "error" else Ok(V[st["own"]]), ns)]
    m = M(P, [(r"::%s$" % d.name, h_dep), (r"::%s$" % f.name, h_prove), (r"::%s$" % k.name, h_check)])
    I = m.I
    ME = ("n", 1)

    def run(dep, sub=None, hyp=(), memo=(), touched=False, own="pass", desc=False):
        st.update(dep=dep, sub=sub or {}, own=own, desc_touch=desc, dep_of=None)
        outs = m.call(f, ("p", -1, ()), node("n"), idx(1), ("p", -2, ()), I.sym("in", "SCHEMA"), I.sym("in", "RDF"),
                      cells=(engine(P, I, memo=[(PAIR(*k_), V[v]) for k_, v in memo], touched=touched), lst(PAIR(*x) for x in hyp)))
        res = set()
        for ret, cells, G in outs or ():
            e = fields(P, cells[0])
            mem = tuple(sorted((x[1][0][1][0][3][0][3][0][1], x[1][0][1][1][3][0][1]) for x in e["typing"][1])) if e["typing"][0] == "L" else "?"
            res.add((verdict(ret), G.get(("proved",), ()), G.get(("typing",)), G.get(("checked",)), mem, e["hyp_touched"], cells[1],
                     G.get(("hyps",), ()), G.get(("hypc",))))
        return res
    A, B = ("a", 2), ("n", 3)
    H = ("h", 7)
    sched, assume, memo, back, own, under = [], [], [], [], [], []
    pairs_of = lambda h: frozenset((x[1][0][3][0][3][0][1], x[1][1][3][0][1]) for x in (h[1] if h[0] == "L" else h)) if h != "?" and h[0] != "T" else "?"
    subs = list(itertools.product(("pass", "fail"), (False, True)))
    for hyp in ((), (H,), (H, A)):
        for dep in ((), (A,), (A, B), (ME,), (ME, B), (H,)):
            for s2 in itertools.product(subs, repeat=len([x for x in dep if x in (A, B)])):
                for touched in (False, True):
                    sub = dict([(H, ("fail", False))] + list(zip([x for x in dep if x in (A, B)], s2)))
                    for desc in (False, True):
                        hs = set(hyp) | {ME}
                        todo = tuple(sorted(x for x in dep if x not in hs))
                        assumed = any(x in hs for x in dep)
                        got = run(dep, sub, hyp, (), touched, "pass", desc)
                        tag = "dependencies %s, being proved %s, results %s%s%s" % (list(dep), list(hyp), sub, ", saved flag" if touched else "", ", descendants used an assumption" if desc else "")
                        one = list(got)[0] if len(got) == 1 else None
                        if one is None:
                            sched.append((tag, "%d outcomes" % len(got), "one"))
                            continue
                        r, proved, ty, chk, mem, tch, hy, hyps, hc = one
                        sched.append((tag, proved, todo))
                        assume.append((tag, ty, tuple(sorted(hs | {x for x in todo if sub[x][0] == "pass"}))))
                        rests = assumed or desc or any(sub[x][1] for x in todo)
                        memo.append((tag, "remembered" if mem == (ME,) else "not remembered" if mem == () else mem, "not remembered" if rests or mem == () else "remembered"))
                        back.append((tag + " (flag)", tch in (TRUE,), (touched or rests) or tch in (TRUE,)))
                        back.append((tag + " (assumptions)", hy, lst(PAIR(*x) for x in hyp)))
                        own.append((tag, (r, chk), ("pass", ME)))
                        for h in hyps + (() if hc is None else (hc,)):
                            under.append((tag, pairs_of(h), frozenset(hs)))
                        if not desc and not touched:
                            for o2 in ("fail", "error"):
                                for g2 in run(dep, sub, hyp, (), touched, o2, desc):
                                    if g2[0] != "error":
                                        back.append((tag + ", fails (assumptions)", g2[6], lst(PAIR(*x) for x in hyp)))
                                        memo.append((tag + ", fails", "remembered" if g2[4] == (ME,) else "not remembered" if g2[4] == () else g2[4], "not remembered" if rests or g2[4] == () else "remembered"))
    table(c, rid, "scheduled", f, "the dependencies proved", sched)
    table(c, rid, "typing", f, "the pairs taken to hold when the verdict is made", assume)
    table(c, rid, "memo", f, "the verdicts remembered", memo)
    table(c, rid, "under", f, "the pairs assumed while a dependency, or the pair itself, is decided", under)
    table(c, rid, "withdrawn", f, "assumptions and flag afterwards", back)
    table(c, rid, "verdict", f, "the pair decided", own)
    rows = []
    for v in ("pass", "fail"):
        for own_ in ("pass", "fail"):
            got = run((A,), {A: ("pass", False)}, (), [(ME, v)], False, own_)
            rows.append(("remembered %s, would now be %s" % (v, own_), {x[0] for x in got}, {v}))
            got = run((A,), {A: ("pass", False)}, (), [(A, v), (("n", 2), v)], False, own_)
            rows.append(("another pair remembered %s, own %s" % (v, own_), {x[0] for x in got}, {own_}))
    table(c, rid, "recall", f, "a remembered verdict", rows)
    rows = [("dependencies cannot be computed", {x[0] for x in run(None)}, {"error"}), ("a dependency's proof is an error", {x[0] for x in run((A,), {A: ("error", False)})}, {"error"}),
            ("the pair's own check is an error", {x[0] for x in run((A,), {A: ("pass", False)}, own="error")}, {"error"}), ("the pair's own check fails", {x[0] for x in run((A,), {A: ("pass", False)}, own="fail")}, {"fail"})]
    table(c, rid, "error", f, "failures and errors", rows)


def deps(c, P):
    rid = "dependencies"
    c.rule(rid, "the dependencies of (node, shape) include (node, s) for every shape s its expression combines or refers to, and (v, s) for every neighbour v of the node under a predicate whose constraint refers to s, "
                "collected through every connective, reference and parent")
    f = anch(c, rid, efn(P, "dep", ["rEngine", "rNode", "rShapeLabelIdx", "rSchemaIR", "rR"]), "dep")
    nf = anch(c, rid, efn(P, "neighs", ["rEngine", "rNode", "Vec", "rS"]), "neighs")
    se_ = [x for x in P.fns.values() if x.id.startswith("shex_ast::ir::shape_expr::ShapeExpr::") and x.kind == "method"] or [x for x in P.fns.values() if x.id.startswith("shex_ast::ir::shape_expr::ShapeExpr::")]
    nm = {x.name: x for x in se_ if "{" not in x.id}
    dr, rf, rv = (anch(c, rid, nm.get(n), "ShapeExpr::" + n) for n in ("direct_references", "references", "references_visited"))
    sh = {x.name: x for x in P.fns.values() if x.id.startswith("shex_ast::ir::shape::Shape::") and "{" not in x.id}
    srv = anch(c, rid, sh.get("references_visited"), "Shape::references_visited")
    if not all((f, nf, dr, rf, rv, srv)):
        return
    st = {}
    p, q, z = pred("p"), pred("q"), pred("", True)
    DEFAULT = None

    def h_dr(I, site, name, callee, args, s):
        return [(lst(idx(i) for i in st["direct"]), s)] if plain(callee[1]) == dr.id or plain(name) == dr.id else None

    def h_refs(I, site, name, callee, args, s):
        return [(lst(T2(k, lst(idx(i) for i in v)) for k, v in st["refs"]), s)] if plain(callee[1]) == rf.id or plain(name) == rf.id else None

    def h_neighs(I, site, name, callee, args, s):
        ps = I.deref(args[2], s)
        return [(Ok(T2(lst(T2(k, v) for k, v in st["arcs"] if ps[0] != "L" or k in ps[1]), lst([]))) if st["ok"] else Err(("s", "STORE")), s)]
    m = M(P, [(r"::direct_references$", h_dr), (r"ShapeExpr::references$", h_refs), (r"::%s$" % nf.name, h_neighs)])
    I = m.I
    rows = []

    def run(direct, refs, arcs, ok=True, known=True):
        st.update(direct=direct, refs=refs, arcs=arcs, ok=ok)
        m.res = {("find_shape_idx", 1): Some(I.sym("in", "SE")) if known else NONE}
        outs = m.call(f, I.sym("in", "ENGINE"), node("n"), idx(1), I.sym("in", "SCHEMA"), I.sym("in", "RDF"))
        vs = {o[0] for o in outs or ()}
        if len(vs) != 1:
            return "%d results" % len(vs)
        v = vs.pop()
        if v[2] == "Err":
            return "error"
        return frozenset(v[3][0][1]) if v[3][0][0] == "L" else "?"
    for direct in ([], [2], [2, 3], [2, 3, 4, 5, 6]):
        for refs in ([], [(p, [4])], [(p, [4, 5]), (q, [4])], [(p, [4, 5, 6, 7]), (q, [4]), (pred("r"), [8])]):
            for arcs in ([], [(p, node("a"))], [(p, node("a")), (p, node("b")), (q, node("a"))], [(p, node("a")), (p, node("b")), (p, node("c")), (p, node("d")), (pred("r"), node("d")), (pred("r"), node("e"))]):
                want = frozenset([T2(node("n"), idx(i)) for i in direct] + [T2(v, idx(i)) for k, v in arcs for k2, ii in refs if k2 == k for i in ii])
                rows.append(("direct %s, references %s, triples %s" % (direct, [(names([k]), v) for k, v in refs], [(names([k]), v[3][0][3][0][1]) for k, v in arcs]), run(direct, refs, arcs), want))
    rows.append(("the store fails", run([2], [(p, [4])], [], ok=False), "error"))
    rows.append(("unknown shape", run([], [], [], known=False), "error"))
    table(c, rid, "pairs", f, "the dependencies of a pair", rows)
    # direct references of each constructor
    m2 = M(P)
    rows = []
    some = m2.I.sym("in", "X")
    for e, w in ((se("ShapeOr", lst([idx(1), idx(2)])), [1, 2]), (se("ShapeAnd", lst([idx(1), idx(2), idx(3)])), [1, 2, 3]), (se("ShapeAnd", lst([])), []), (se("ShapeNot", idx(4)), [4]), (se("Ref", idx(5)), [5]),
                 (se("NodeConstraint", some), []), (se("Shape", some), []), (se("External"), []), (se("Empty"), [])):
        outs = m2.call(dr, e)
        vs = {o[0] for o in outs or ()}
        rows.append((e[2], vs.pop() if len(vs) == 1 else "%d results" % len(vs), lst(idx(i) for i in w)))
    rows = [(a, frozenset(g[1]) if g[0] == "L" else g, frozenset(w[1])) for a, g, w in rows]
    table(c, rid, "direct", dr, "the shapes an expression combines or refers to", rows)
    # references: each constructor over the references of its members
    subs = {i: [(p, [10 + i])] + ([(q, [20 + i])] if i % 2 else []) for i in range(1, 6)}

    def h_sub(I, site, name, callee, args, s):
        if rv.id not in (plain(callee[1]), plain(name)):
            return None
        v = I.deref(args[0], s)
        if v[0] != "s":
            return None
        return [(lst(T2(k, lst(idx(i) for i in x)) for k, x in subs[int(v[1][1:])]), s)]

    def h_ssub(I, site, name, callee, args, s):
        if srv.id not in (plain(callee[1]), plain(name)):
            return None
        return [(lst([T2(q, lst([idx(33)]))]), s)]

    def h_ref(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(lst(idx(i) for i in cond[v[1]]), s)] if v[0] == "s" else None
    cond = {"c0": [4], "c1": [], "c2": [4, 5]}
    m3 = M(P, [(r"ShapeExpr::references_visited$", h_sub), (r"Shape::references_visited$", h_ssub), (r"MatchCond(<.*>)?(::<.*>)?::refs$", h_ref),
               (r"Default(>)?::default$", lambda I, s, n, cc, a, s2: [(pred(""), s2)] if "pred::Pred" in n else None)])
    m3.res = {("find_shape_idx", i): Some(("s", "e%d" % i)) for i in subs}

    def val(outs, drop=()):
        vs = {o[0] for o in outs or ()}
        if len(vs) != 1:
            return "%d results" % len(vs)
        v = vs.pop()
        if v[0] != "L":
            return "?"
        return frozenset((x[1][0], i) for x in v[1] for i in x[1][1][1])
    want = lambda ids: frozenset((k, idx(x)) for i in ids for k, xs in subs[i] for x in xs)
    rows = []
    for e, w in ((se("ShapeOr", lst([idx(1), idx(2)])), want([1, 2])), (se("ShapeAnd", lst([idx(1), idx(2), idx(3)])), want([1, 2, 3])), (se("ShapeAnd", lst([])), want([])), (se("ShapeOr", lst([idx(3)])), want([3])), (se("ShapeNot", idx(4)), want([4])),
                 (se("NodeConstraint", some), want([])), (se("Shape", some), frozenset([(q, idx(33))])), (se("External"), want([])), (se("Empty"), want([]))):
        rows.append((e[2], val(m3.call(rv, e, I.sym("in", "SCHEMA"), ("p", -1, ()), cells=(lst([]),))), w))
    got = val(m3.call(rv, se("Ref", idx(5)), I.sym("in", "SCHEMA"), ("p", -1, ()), cells=(lst([]),)))
    rows.append(("Ref", want([5]) if not isinstance(got, str) and want([5]) <= got else got, want([5])))
    rows.append(("top", val(m3.call(rf, se("ShapeNot", idx(4)), I.sym("in", "SCHEMA"))), want([4])))
    table(c, rid, "references", rv, "the references of an expression over those of its members", rows)
    # a shape: its own constraints and its parents
    m4 = M(P, [(r"ShapeExpr::references_visited$", h_sub), (r"MatchCond(<.*>)?(::<.*>)?::refs$", h_ref)])
    m4.res = m3.res
    rows = []
    for comps in ([], [(p, 0)], [(p, 0), (q, 0), (p, 0)]):
        for ext in ([], [1], [1, 2]):
            s_ = shape_of(P, False, [], [], comps)
            s_ = ("a", s_[1], s_[2], tuple(lst(idx(i) for i in ext) if f_[0] == "extends" else s_[3][j] for j, f_ in enumerate(P.adts[SHAPE]["v"][0]["f"])))
            w = want(ext) | frozenset((k, idx(x)) for j, (k, _) in enumerate(comps) for x in cond["c%d" % j])
            rows.append(("constraints on %s, parents %s" % (names([k for k, _ in comps]), ext), val(m4.call(srv, s_, I.sym("in", "SCHEMA"), ("p", -1, ()), cells=(lst([]),))), w))
    table(c, rid, "shape", srv, "the references of a shape", rows)


def results(c, P):
    rid = "results"
    c.rule(rid, "every requested pair is decided and reported with its verdict: a proof gives a conformant entry, a failed one a non-conformant entry, for exactly that node and shape; an error ends the validation with an error")
    f = anch(c, rid, efn(P, "validate_pending", ["mEngine", "rR", "rSchemaIR"]), "validate_pending")
    pf = anch(c, rid, efn(P, "prove", ["mEngine", "rNode", "rShapeLabelIdx", "mVec", "rSchemaIR", "rR"]), "prove")
    rm = anch(c, rid, efn(P, "result_map"), "result_map")
    if not (f and pf and rm):
        return
    st = {}
    atom = lambda pos, n, i: ("a", ATOM, "Pos" if pos else "Neg", (PAIR(n, i),))

    def h_prove(I, site, name, callee, args, s):
        if pf.id not in (plain(callee[1]), plain(name)):
            return None
        k = (I.deref(args[1], s)[3][0][3][0][1], I.deref(args[2], s)[3][0][1])
        hyp = I.deref(args[3], s)
        if hyp != lst([]):
            return [(Err(("s", "HYP")), s)]
        r = st["verdict"].get(k, "error")
        return [(ERR if r == "error" else Ok(V[r]), s)]

    def h_acts(I, site, name, callee, args, s):
        return [(Ok(TRUE if I.deref(args[1], s) not in st["acts"] else FALSE), s)]
    st["acts"] = ()
    m = M(P, [(r"::%s$" % pf.name, h_prove), (r"::check_start_acts$", h_acts)])
    I = m.I
    m.res = {("start_acts", None): lst([])}
    pairs = [("a", 1), ("b", 1), ("a", 2)]
    rows = []
    for n in range(4):
        for vs in itertools.product(("pass", "fail", "error"), repeat=n):
            st["verdict"] = dict(zip(pairs, vs))
            outs = m.call(f, ("p", -1, ()), I.sym("in", "RDF"), I.sym("in", "SCHEMA"), cells=(engine(P, I, pending=[atom(True, *x) for x in pairs[:n]]),))
            got = set()
            for ret, cells, G in outs or ():
                e = fields(P, cells[0])
                if ret[0] == "a" and ret[2] == "Err":
                    got.add("error")
                    continue
                got.add((frozenset(e["checked"][1]) if e["checked"][0] == "L" else "?", e["pending"]))
            want = {"error"} if "error" in vs else {(frozenset(atom(v == "pass", *x) for x, v in zip(pairs, vs)), lst([]))}
            rows.append(("verdicts %s" % list(vs), got, want))
    table(c, rid, "decided", f, "the atoms decided for the requested pairs", rows)
    rows = []
    st["verdict"] = dict.fromkeys(pairs, "pass")
    for bad in (("a",), ("b",), ("a", "b")):
        st["acts"] = tuple(node(x) for x in bad)
        outs = m.call(f, ("p", -1, ()), I.sym("in", "RDF"), I.sym("in", "SCHEMA"), cells=(engine(P, I, pending=[atom(True, *x) for x in pairs]),))
        got = {frozenset(y[3][0] for y in fields(P, o[1][0])["checked"][1]) if o[0][2] == "Ok" else "error" for o in outs or ()}
        rows.append(("start actions fail on %s" % list(bad), got, {frozenset(PAIR(*x) for x in pairs)}))
    st["acts"] = ()
    table(c, rid, "start-actions", f, "the pairs decided when a start action fails", rows)
    # the entries of the result
    ident = lambda I, s, n, cc, a, s2: [(I.deref(a[0], s2), s2)]

    def h_add(I, site, name, callee, args, s):
        v = [I.deref(x, s) for x in args[1:]]
        ns = s.fork()
        ns.G[("entries",)] = s.G.get(("entries",), ()) + ((v[0], v[1], v[2]),)
        n2 = s.fork()
        return [(Ok(UNIT), ns), (Err(("s", "ADD")), n2)]

    def h_status(I, site, name, callee, args, s):
        return [(("s", name.rsplit("::", 1)[1]), s)]

    def h_label(I, site, name, callee, args, s):
        return [(Ok(("s", "label%d" % I.deref(args[1], s)[3][0][1])), s)]
    m = M(P, [(r"::add_result$", h_add), (r"ValidationStatus::(conformant|non_conformant|pending|inconsistent)$", h_status), (r"::get_shape_label$", h_label),
              (r"::(json_reasons|json_errors|show_reasons|show_errors)$", lambda I, s, n, cc, a, s2: [(Ok(I.sym("in", "TEXT")), s2)]),
              (r"ResultShapeMap::(new|with_\w+)$", lambda I, s, n, cc, a, s2: [(I.sym("in", "RESULT"), s2)])])
    I = m.I
    rows = []
    for checked in ([], [(True, "a", 1)], [(False, "a", 1)], [(True, "a", 1), (False, "b", 1), (True, "b", 2)], [(False, "a", 1), (False, "a", 2)]):
        for pend in ([], [("c", 1)]):
            outs = m.call(rm, struct(P, "shex_validation::validator::Validator", schema=I.sym("in", "SCHEMA"), config=I.sym("in", "CONFIG")), ("p", -1, ()), NONE,
                          cells=(engine(P, I, checked=[atom(*x) for x in checked], pending=[atom(True, *x) for x in pend]),))
            got = set()
            for ret, cells, G in outs or ():
                if ret[0] == "a" and ret[2] == "Err":
                    continue
                got.add(frozenset(G.get(("entries",), ())))
            want = {frozenset([(node(n), ("s", "label%d" % i), ("s", "conformant" if pos else "non_conformant")) for pos, n, i in checked] + [(node(n), ("s", "label%d" % i), ("s", "pending")) for n, i in pend])}
            rows.append(("decided %s, undecided %s" % (checked, pend), got, want))
    table(c, rid, "entries", rm, "the entries of the result map", rows)


def requested(c, P):
    rid = "requested"
    c.rule(rid, "every node and shape pair of the shape map is handed to the engine or reported as non-conformant because its shape does not exist; a node that cannot be read is an error")
    f = anch(c, rid, efn(P, "validate_shapemap"), "validate_shapemap")
    fp = anch(c, rid, efn(P, "fill_pending"), "fill_pending")
    vp = anch(c, rid, efn(P, "validate_pending", ["mEngine", "rR", "rSchemaIR"]), "validate_pending")
    rm = anch(c, rid, efn(P, "result_map"), "result_map")
    if not (f and fp and vp and rm):
        return
    st = {}

    def h_pairs(I, site, name, callee, args, s):
        return [(Ok(lst(T2(("s", n), ("s", l)) for n, l in st["pairs"])) if st["pairs"] is not None else Err(("s", "MAP")), s)]

    def h_ref(I, site, name, callee, args, s):
        v = I.deref(args[1], s)
        return [(Ok(idx(int(v[1][1:]))) if v[0] == "s" and v[1] not in st["unknown"] else Err(("s", "NOREF")), s)]

    def h_obj(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(Ok(("a", OBJ, "Iri", (v,))) if v[0] == "s" and v[1] not in st["bad"] else Err(("s", "BADNODE")), s)]

    def h_label(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(Ok(v), s), (Err(("s", "BADLABEL")), s.fork())]

    def h_vp(I, site, name, callee, args, s):
        if vp.id not in (plain(callee[1]), plain(name)):
            return None
        e = fields(P, I.deref(args[0], s))
        ns = s.fork()
        ns.G[("pending",)] = e["pending"]
        set_field(P, I, args[0], ns, "hyp_touched", ("s", "RAN"))
        return [(Ok(UNIT) if st["ok"] else Err(("s", "ENGINE")), ns)]

    def h_rm(I, site, name, callee, args, s):
        if rm.id not in (plain(callee[1]), plain(name)):
            return None
        e = I.deref(args[1], s)
        return [(Ok(I.sym("in", "RESULT")) if e[0] == "a" and fields(P, e)["hyp_touched"] == ("s", "RAN") else Ok(("s", "of another engine")), s)]

    def h_add(I, site, name, callee, args, s):
        v = [I.deref(x, s) for x in args[1:]]
        ns = s.fork()
        ns.G[("entries",)] = s.G.get(("entries",), ()) + ((v[0], v[1], v[2]),)
        return [(Ok(UNIT), ns), (Err(("s", "ADD")), s.fork())]
    m = M(P, [(r"QueryShapeMap::node_shapes$", h_pairs), (r"SchemaIR::find_ref$", h_ref), (r"term_as_object$", h_obj), (r"ShapeLabel::from_shape_expr_label$", h_label), (r"::%s$" % vp.name, h_vp), (r"::%s$" % rm.name, h_rm),
              (r"::add_result$", h_add), (r"ValidationStatus::(conformant|non_conformant|pending|inconsistent)$", lambda I, s, n, cc, a, s2: [(("s", n.rsplit("::", 1)[1]), s2)]),
              (r"ValidatorConfig::(\w+)$", lambda I, s, n, cc, a, s2: [(I.sym("in", "CONFIG"), s2)]), (r"ShapeExprLabel as .*From<.*>>::from$", lambda I, s, n, cc, a, s2: [(I.deref(a[0], s2), s2)])])
    I = m.I
    rows = []
    base = [("a", "S1"), ("b", "S1"), ("a", "S2")]
    for pairs in ([], base[:1], base[:2], base, None):
        for unknown in ((), ("S1",), ("S2",)):
            for bad in ((), ("a",), ("b",)):
                for ok in (True, False):
                    st.update(pairs=pairs, unknown=unknown, bad=bad, ok=ok)
                    outs = m.call(f, struct(P, "shex_validation::validator::Validator", schema=I.sym("in", "SCHEMA"), config=I.sym("in", "CONFIG")), I.sym("in", "MAP"), I.sym("in", "RDF"), I.sym("in", "SCHEMA"), NONE)
                    got = set()
                    for ret, cells, G in outs or ():
                        if ret[0] == "a" and ret[2] == "Err":
                            continue
                        pd = G.get(("pending",))
                        if ret[3][0] != I.sym("in", "RESULT"):
                            got.add("the result of another engine")
                            continue
                        got.add((frozenset(pd[1]) if pd and pd[0] == "L" else "?", frozenset(G.get(("entries",), ()))))
                    if pairs is None or not ok or any(n in bad for n, l in pairs):
                        want = set()
                    else:
                        want = {(frozenset(("a", ATOM, "Pos", (PAIR(n, int(l[1:])),)) for n, l in pairs if l not in unknown), frozenset((node(n), ("s", l), ("s", "non_conformant")) for n, l in pairs if l in unknown))}
                    rows.append(("pairs %s, unknown shapes %s, unreadable nodes %s%s" % (pairs, list(unknown), list(bad), "" if ok else ", engine error"), got, want))
    table(c, rid, "pairs", f, "the pairs decided or reported (every other outcome is an error)", rows)
    vns = anch(c, rid, efn(P, "validate_node_shape", crate="shex_validation::validator"), "validate_node_shape")
    if not vns:
        return
    rows = []
    v = struct(P, "shex_validation::validator::Validator", schema=I.sym("in", "SCHEMA"), config=I.sym("in", "CONFIG"))
    for unknown in ((), ("S1",)):
        for ok in (True, False):
            st.update(unknown=unknown, bad=(), ok=ok)
            got = set()
            for ret, cells, G in m.call(vns, v, node("a"), ("s", "S1"), I.sym("in", "RDF"), I.sym("in", "SCHEMA"), NONE) or ():
                if ret[2] == "Err":
                    continue
                pd = G.get(("pending",))
                got.add((frozenset(pd[1]) if pd and pd[0] == "L" else "?", ret[3][0] == I.sym("in", "RESULT")))
            rows.append(("shape %s%s" % ("unknown" if unknown else "known", "" if ok else ", engine error"), got, set() if unknown or not ok else {(frozenset([("a", ATOM, "Pos", (PAIR("a", 1),))]), True)}))
    table(c, rid, "single", vns, "one node and shape", rows)


def run(c):
    P = c.prog
    prove(c, P)
    deps(c, P)
    results(c, P)
    requested(c, P)
