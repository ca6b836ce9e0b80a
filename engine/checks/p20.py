"""P20: negation stratification of ShEx schemas."""
import itertools, re
from vf import absint, natives, petgraph
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *
from checks.p22 import plain, table, anch
from checks.p19 import *
from checks.p19 import T2

TITLE = "A ShEx schema with recursion through negation is rejected, any other is not"
PN, DG = "shex_ast::ir::dependency_graph::PosNeg", "shex_ast::ir::dependency_graph::DependencyGraph"
pn = lambda neg: ("a", PN, "Neg" if neg else "Pos", ())


def sfn(P, owner, name):
    c = [f for f in P.fns.values() if "{" not in f.id and f.name == name and plain(f.id).startswith("shex_ast::ir::") and plain(f.id).endswith("::%s::%s" % (owner, name))]
    return c[0] if len(c) == 1 else None


def gedges(P, v):
    """{(from, to): negative} of a DependencyGraph value"""
    if v[0] != "a" or v[1] != DG:
        return None
    g = [x for x in v[3] if x[0] == "a" and x[1] == petgraph.GM]
    if not g:
        return None
    return {(e[1][0][3][0][1], e[1][1][3][0][1]): e[1][2][2] == "Neg" for e in g[0][3][1][1]}


def edges(c, P):
    rid = "edges"
    c.rule(rid, "a shape depends positively on the shapes it refers to and combines, negatively on those under an odd number of negations, and both ways on those a constraint on an EXTRA predicate refers to; "
                "a negative dependency is kept whatever else is added between the same shapes")
    add = anch(c, rid, sfn(P, "ShapeExpr", "add_edges"), "ShapeExpr::add_edges")
    sadd = anch(c, rid, sfn(P, "Shape", "add_edges"), "Shape::add_edges")
    dadd = anch(c, rid, sfn(P, "DependencyGraph", "add_edge"), "DependencyGraph::add_edge")
    bld = anch(c, rid, sfn(P, "SchemaIR", "build_dependency_graph"), "build_dependency_graph")
    if not all((add, sadd, dadd, bld)):
        return
    st = {"exprs": {}, "cond": {}}

    def h_find(I, site, name, callee, args, s):
        k = I.deref(args[1], s)[3][0][1]
        e = st["exprs"].get(k)
        return [(Some(e) if e else NONE, s)]

    def h_cond(I, site, name, callee, args, s):
        v = I.deref(args[0], s)
        return [(lst(idx(i) for i in st["cond"][v[1]]), s)] if v[0] == "s" else None
    m = M(P, petgraph.handlers() + [(r"SchemaIR::find_shape_idx$", h_find), (r"MatchCond(<.*>)?(::<.*>)?::refs$", h_cond)])
    I = m.I
    G0 = lambda: ("a", DG, "", (petgraph.gm((), ()),))

    def run(e, neg):
        outs = m.call(add, e, idx(1), ("p", -1, ()), pn(neg), I.sym("in", "SCHEMA"), ("p", -2, ()), cells=(G0(), lst([])))
        vs = {tuple(sorted(gedges(P, o[1][0]).items())) if gedges(P, o[1][0]) is not None else "?" for o in outs or ()}
        return vs.pop() if len(vs) == 1 else "%d outcomes" % len(vs)
    R = lambda i: se("Ref", idx(i))
    N = lambda i: se("ShapeNot", idx(i))
    rows = []

    def row(desc, e, exprs, want):
        st["exprs"] = exprs
        for neg in (False, True):
            w = {}
            for t, n in want:
                w[(1, t)] = w.get((1, t), False) or (n != neg)
            rows.append(("%s, %s context" % (desc, "negative" if neg else "positive"), run(e, neg), tuple(sorted(w.items()))))
    row("reference", R(2), {}, [(2, False)])
    row("reference to itself", R(1), {}, [(1, False)])
    for kind in ("ShapeAnd", "ShapeOr"):
        row(kind, se(kind, lst([idx(11), idx(12)])), {11: R(2), 12: R(3)}, [(2, False), (3, False)])
        row(kind + " with a negated member", se(kind, lst([idx(11), idx(12)])), {11: R(2), 12: N(13), 13: R(3)}, [(2, False), (3, True)])
        row(kind + " of a shape and its negation", se(kind, lst([idx(11), idx(12)])), {11: R(2), 12: N(11)}, [(2, False), (2, True)])
        row(kind + " of a negation and its shape", se(kind, lst([idx(12), idx(11)])), {11: R(2), 12: N(11)}, [(2, True), (2, False)])
        row(kind + " of five", se(kind, lst([idx(11), idx(12), idx(13), idx(15), idx(16)])), {11: R(2), 12: R(3), 13: R(4), 15: R(5), 16: N(11)}, [(2, False), (3, False), (4, False), (5, False), (2, True)])
        row(kind + " nested", se(kind, lst([idx(14)])), {14: se("ShapeOr", lst([idx(11), idx(12)])), 11: R(2), 12: N(13), 13: R(3)}, [(2, False), (3, True)])
    row("negation", N(11), {11: R(2)}, [(2, True)])
    row("double negation", N(11), {11: N(12), 12: R(2)}, [(2, False)])
    row("triple negation", N(11), {11: N(12), 12: N(13), 13: R(2)}, [(2, True)])
    row("negated conjunction", N(11), {11: se("ShapeAnd", lst([idx(12), idx(13)])), 12: R(2), 13: N(14), 14: R(3)}, [(2, True), (3, False)])
    row("negated disjunction", N(11), {11: se("ShapeOr", lst([idx(12), idx(13)])), 12: R(2), 13: R(3)}, [(2, True), (3, True)])
    X = I.sym("in", "NC")
    row("no references", se("NodeConstraint", X), {}, [])
    row("external", se("External"), {}, [])
    row("empty", se("Empty"), {}, [])
    p, q = pred("p"), pred("q")
    st["cond"] = {"c0": [2], "c1": [3, 4], "c2": []}
    for extra in ([], [p], [q], [p, q]):
        for comps in ([], [(p, 0)], [(p, 0), (q, 0)], [(q, 0), (p, 0), (p, 0)]):
            s_ = shape_of(P, False, extra, [], comps)
            want = []
            for k, (pr, _) in enumerate(comps):
                for t in st["cond"]["c%d" % k]:
                    want.append((t, False))
                    if pr in extra:
                        want.append((t, True))
            w2 = {}
            # an EXTRA reference is negative in a positive context; in a negative one the shape's own edge already is
            for neg in (False, True):
                w = {}
                for t, n in want:
                    w[(1, t)] = w.get((1, t), False) or n or neg
                rows.append(("constraints on %s, EXTRA %s, %s context" % (names([k for k, _ in comps]), names(extra), "negative" if neg else "positive"), run(se("Shape", s_), neg), tuple(sorted(w.items()))))
            row_n = N(11)
            st["exprs"] = {11: se("Shape", s_)}
            w = {(1, t): True for t, n in want}
            rows.append(("negated shape with constraints on %s, EXTRA %s" % (names([k for k, _ in comps]), names(extra)), run(row_n, False), tuple(sorted(w.items()))))
    table(c, rid, "polarity", add, "the dependencies of an expression", rows)
    rows = []
    for seq in itertools.chain.from_iterable(itertools.product((False, True), repeat=n) for n in (1, 2, 3)):
        cell = G0()
        for neg in seq:
            outs = m.call(dadd, ("p", -1, ()), idx(1), idx(2), pn(neg), cells=(cell,))
            if not outs or len({o[1][0] for o in outs}) != 1:
                cell = T
                break
            cell = outs[0][1][0]
            outs = m.call(dadd, ("p", -1, ()), idx(2), idx(1), pn(False), cells=(cell,))
            cell = outs[0][1][0]
        rows.append(("adding %s" % ["-" if x else "+" for x in seq], gedges(P, cell), {(1, 2): any(seq), (2, 1): False}))
    table(c, rid, "weight", dadd, "the sign kept between two shapes", rows)
    st["exprs"] = {11: R(2), 12: N(13), 13: R(3)}
    shapes = {1: se("ShapeAnd", lst([idx(11), idx(12)])), 2: N(11), 3: se("Shape", shape_of(P, False, [], [], [(p, 0)])), 4: se("Empty"), 12: N(13)}
    schema = struct(P, "shex_ast::ir::schema_ir::SchemaIR", **{f[0]: (lst(T2(idx(k), v) for k, v in shapes.items()) if f[0] == "shapes" else G0() if f[0] == "dependency_graph" else I.sym("in", f[0])) for f in P.adts["shex_ast::ir::schema_ir::SchemaIR"]["v"][0]["f"]})
    outs = m.call(bld, ("p", -1, ()), cells=(schema,))
    vs = {tuple(sorted((gedges(P, fields(P, o[1][0])["dependency_graph"]) or {}).items())) for o in outs or ()}
    table(c, rid, "graph", bld, "the dependency graph of a schema", [("five shapes", vs, {tuple(sorted({(1, 2): False, (1, 3): True, (2, 2): True, (3, 2): False, (12, 3): True}.items()))})])


def cycles(c, P):
    rid = "cycles"
    c.rule(rid, "a negative cycle is reported iff a negative dependency lies on a cycle")
    nc = anch(c, rid, sfn(P, "DependencyGraph", "neg_cycles"), "neg_cycles")
    hn = anch(c, rid, sfn(P, "DependencyGraph", "has_neg_cycle"), "has_neg_cycle")
    shn = anch(c, rid, sfn(P, "SchemaIR", "has_neg_cycle"), "SchemaIR::has_neg_cycle")
    snc = anch(c, rid, sfn(P, "SchemaIR", "neg_cycles"), "SchemaIR::neg_cycles")
    if not all((nc, hn, shn, snc)):
        return
    m = M(P, petgraph.handlers())
    I = m.I
    rows = {f.id: [] for f in (nc, hn, shn, snc)}
    cand = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    n = 0
    for k in range(5):
        for es in itertools.combinations(cand, k):
            if k >= 3 and (es[0][0] != 1 and (1, 1) not in es):
                continue
            for signs in itertools.product((False, True), repeat=k):
                if k == 4 and sum(signs) != 1:
                    continue
                reach = {a: {b for x, b in es if x == a} for a in (1, 2, 3)}
                for _ in range(3):
                    reach = {a: r | {z for y in r for z in reach[y]} for a, r in reach.items()}
                want = any(s and a in reach[b] | {b} and (b == a or a in reach[b]) for (a, b), s in zip(es, signs))
                n += 1
                if k == 4 and n % 3:
                    continue
                g = ("a", DG, "", (petgraph.gm([idx(i) for i in sorted({x for e in es for x in e})], [("t", (idx(a), idx(b), pn(s))) for (a, b), s in zip(es, signs)]),))
                desc = "edges %s" % ["%d%s%d" % (a, "-" if s else "+", b) for (a, b), s in zip(es, signs)]
                for f in (nc, hn):
                    v = one(m.call(f, g))
                    rows[f.id].append((desc, v[0] == "L" and bool(v[1]) if f is nc else v, want if f is nc else ("b", want)))
                if k <= 2:
                    s_ = struct(P, "shex_ast::ir::schema_ir::SchemaIR", **{x[0]: g if x[0] == "dependency_graph" else I.sym("in", x[0]) for x in P.adts["shex_ast::ir::schema_ir::SchemaIR"]["v"][0]["f"]})
                    for f in (snc, shn):
                        v = one(m.call(f, s_))
                        rows[f.id].append((desc, v[0] == "L" and bool(v[1]) if f is snc else v, want if f is snc else ("b", want)))
    for f in (nc, hn, shn, snc):
        table(c, rid, f.id.rsplit("::", 2)[-2] + "::" + f.name, f, "negative cycles of a dependency graph", rows[f.id])


def one(outs):
    vs = {o[0] for o in outs or ()}
    return vs.pop() if len(vs) == 1 else ("?", len(vs))


def enforced(c, P):
    rid = "enforced"
    c.rule(rid, "no validator is made from, and no strict load accepts, a schema with a negative cycle (unless the check is switched off); a compiled cache records whether its schema has one")
    wf = anch(c, rid, efn(P, "with_neg_cycle_check"), "Validator::with_neg_cycle_check")
    vn = [f for f in P.fns.values() if f.id == "shex_validation::validator::Validator::new"]
    vn = anch(c, rid, vn[0] if vn else None, "Validator::new")
    cp = anch(c, rid, efn(P, "compile_shex_schema", crate="rudof_lib"), "compile_shex_schema")
    rd = anch(c, rid, sfn(P, "SchemaIR", "read"), "SchemaIR::read")
    wr = anch(c, rid, sfn(P, "SchemaIR", "write"), "SchemaIR::write")
    if not all((wf, vn, cp, rd, wr)):
        return
    st = {}

    def h_neg(I, site, name, callee, args, s):
        return [(lst([lst([])] * st["neg"]) if name.endswith("neg_cycles") and st["neg"] else lst([]) if name.endswith("neg_cycles") else ("b", bool(st["neg"])), s)]
    m = M(P, [(r"SchemaIR::(has_neg_cycle|neg_cycles)$", h_neg)])
    I = m.I
    vc = "shex_validation::validator_config::ValidatorConfig"
    cfg = lambda b: struct(P, vc, **{f[0]: ("b", b) if f[0] == "check_negation_requirement" else I.sym("in", f[0]) for f in P.adts[vc]["v"][0]["f"]})
    rows, rows2 = [], []
    for neg in (0, 1, 2, 3):
        st["neg"] = neg
        for req in (False, True):
            for chk in (False, True):
                got = {o[0][2] for o in m.call(wf, I.sym("in", "SCHEMA"), cfg(req), ("b", chk))}
                rows.append(("negative cycle %s, requirement %s, check %s" % (neg, req, chk), got, {"Err"} if neg and req and chk else {"Ok"}))
            got = {o[0][2] for o in m.call(vn, I.sym("in", "SCHEMA"), cfg(req))}
            rows2.append(("negative cycle %s, requirement %s" % (neg, req), got, {"Err"} if neg and req else {"Ok"}))
    table(c, rid, "with_neg_cycle_check", wf, "making a validator", rows)
    table(c, rid, "new", vn, "making a validator", rows2)
    # the strict load
    def h_pop(I, site, name, callee, args, s):
        return [(Ok(UNIT), s)]

    def h_val(I, site, name, callee, args, s):
        return [(Ok(I.sym("in", "VALIDATOR")), s)]
    m = M(P, [(r"SchemaIR::(has_neg_cycle|neg_cycles)$", h_neg), (r"::populate_from_schema_json$", h_pop), (r"Validator::(new|with_neg_cycle_check)$", h_val),
              (r"SemanticActionsRegistry::\w+$|ActionExtension::new$|SchemaIR::new$|::shex_validator$|::external_resolvers$", lambda I, s, n, cc, a, s2: [(I.sym("in", "X"), s2)])])
    I = m.I
    rows = []
    mode = [k for k, a in P.adts.items() if k.rsplit("::", 1)[-1] == "DataReaderMode"]
    ru = [k for k, a in P.adts.items() if k.rsplit("::", 1)[-1] == "Rudof" and k.startswith("rudof_lib")]
    if mode and ru:
        for neg in (False, True):
            for md in ("Strict", "Lax"):
                st["neg"] = neg
                rv = struct(P, ru[0], **{f[0]: I.sym("in", f[0]) for f in P.adts[ru[0]]["v"][0]["f"]})
                outs = m.call(cp, ("p", -1, ()), I.sym("in", "BASE"), I.sym("in", "AST"), ("a", mode[0], md, ()), cells=(rv,))
                rows.append(("negative cycle %s, %s" % (neg, md), {o[0][2] for o in outs or ()}, {"Err"} if neg and md == "Strict" else {"Ok"}))
    table(c, rid, "load", cp, "loading a schema", rows or [("anchors", 0, 1)])
    # the cache header
    def h_hread(I, site, name, callee, args, s):
        return [(Ok(struct(P, "shex_ast::ir::cache::CacheHeader", body_format=I.sym("in", "FMT"), rudof_version=("s", "v"), has_neg_cycle=("b", st["neg"]))), s)]

    def h_body(I, site, name, callee, args, s):
        return [(Ok(I.sym("in", "IR")), s)]

    def h_hwrite(I, site, name, callee, args, s):
        ns = s.fork()
        ns.G[("hdr",)] = fields(P, I.deref(args[0], s)).get("has_neg_cycle")
        return [(Ok(UNIT), ns)]
    m = M(P, [(r"SchemaIR::(has_neg_cycle|neg_cycles)$", h_neg), (r"CacheHeader::read_from$", h_hread), (r"CacheFormat::read_from$", h_body), (r"CacheHeader::write_to$", h_hwrite), (r"CacheFormat::write_to$", lambda I, s, n, cc, a, s2: [(Ok(UNIT), s2)])])
    I = m.I
    rows, rows2 = [], []
    rm = "shex_ast::ir::cache::CacheReaderMode"
    if rm not in P.adts:
        rm = [k for k in P.adts if k.endswith("::CacheReaderMode")] or [None]
        rm = rm[0]
    for neg in (False, True):
        st["neg"] = neg
        for md in [x["n"] for x in P.variants(rm)] if rm else []:
            outs = m.call(rd, I.sym("in", "R"), I.sym("in", "REG"), ("a", rm, md, ()))
            rows.append(("cache of a schema with a negative cycle: %s, %s" % (neg, md), {o[0][2] for o in outs or ()}, {"Err"} if neg and md == "Strict" else {"Ok"}))
        outs = m.call(wr, I.sym("in", "SCHEMA"), I.sym("in", "W"), I.sym("in", "FMT"))
        rows2.append(("negative cycle %s" % neg, {o[2].get(("hdr",)) for o in outs or () if o[0][2] == "Ok"}, {("b", neg)}))
    table(c, rid, "cache-read", rd, "loading a compiled schema", rows or [("anchors", 0, 1)])
    table(c, rid, "cache-write", wr, "the negative-cycle mark of a compiled schema", rows2)


def run(c):
    P = c.prog
    edges(c, P)
    cycles(c, P)
    enforced(c, P)
