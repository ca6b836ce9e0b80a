"""P29: a SHACL property path reaches exactly the nodes it relates to the start node.
`objects_for_shacl_path` is interpreted over finite graphs (cycles, self-loops, blank nodes, literals), one path and start node at a time, and compared with
the relation the path denotes; the text of a path put into a SPARQL query is read back with the SPARQL path grammar and must denote the same relation."""
import itertools, re
from vf.absint import T, Ok, Err, Some, NONE
from vf.table import *
from vf.oxmock import *
from checks.p10 import M, OX, EP, BACK, DATA, NR, LIT, by
from checks.p22 import anch

TITLE = "A property path reaches exactly the nodes it denotes"
IRIS_ADT = "rudof_iri::iri::iris::IriS"
SP = "rudof_rdf::rdf_core::shacl_path::SHACLPath"
# two cycles, a self-loop, a blank node, a diamond and literals, one of them also at the end of a longer way
G1 = [("a", "p", "b"), ("b", "p", "a"), ("b", "p", "_:n"), ("_:n", "p", "_:n"), ("_:n", "q", "c"), ("a", "q", LIT), ("c", "q", LIT), ("c", "p", "d"), ("d", "q", "a"), ("b", "q", "c"), ("d", "p", ("lit", "y")), ("a", "q", "d")]
G2 = [("d", "p", "e"), ("e", "p", "c"), ("e", "q", LIT), ("c", "q", "b")]
NODES = ["a", "b", "c", "d", "_:n", LIT, ("lit", "y"), "z"]
PREDS = ["p", "q", "z"]
UN = "^*+?"


def paths(depth):
    """all paths of that depth, as ("p", iri) | (op, path) | ("/" or "|", paths)"""
    lv = [[("p", p) for p in PREDS]]
    for d in range(depth):
        prev = [x for l in lv for x in l]
        new = [(u, x) for u in UN for x in prev] + [(o, (x, y)) for o in "/|" for x in prev for y in prev if ("p", "z") not in (x, y)]
        seen = set(prev)
        lv.append([x for x in new if x not in seen])
    return lv


def rel(g, path, nodes):
    """the relation a path denotes, restricted to pairs of the given nodes and the nodes of the graph"""
    k = path[0]
    if k == "p":
        return {(s, o) for s, p, o in g if p == path[1]}
    if k == "^":
        return {(o, s) for s, o in rel(g, path[1], nodes)}
    if k == "|":
        return set().union(*[rel(g, x, nodes) for x in path[1]]) if path[1] else set()
    if k == "/":
        r = {(n, n) for n in nodes}
        for x in path[1]:
            nx = rel(g, x, nodes)
            r = {(a, d) for a, b in r for c, d in nx if b == c}
        return r
    r = rel(g, path[1], nodes)
    if k == "?":
        return r | {(n, n) for n in nodes}
    cl = set(r)
    while True:
        new = {(a, d) for a, b in cl for c, d in r if b == c} - cl
        if not new:
            break
        cl |= new
    return cl | {(n, n) for n in nodes} if k == "*" else cl


def reach(g, path, n):
    nodes = {x for t in g for x in (t[0], t[2])} | {n}
    return frozenset(o for s, o in rel(g, path, nodes) if s == n)


def value(P, path, pred=lambda x: ("s", x)):
    v = lambda name, x: ("a", SP, name, (x,))
    k = path[0]
    if k == "p":
        return v("Predicate", pred(path[1]))
    if k in "/|":
        return v({"/": "Sequence", "|": "Alternative"}[k], ("L", tuple(value(P, x, pred) for x in path[1])))
    return v({"^": "Inverse", "*": "ZeroOrMore", "+": "OneOrMore", "?": "ZeroOrOne"}[k], value(P, path[1], pred))


def show(path):
    k = path[0]
    return path[1] if k == "p" else "^" + show(path[1]) if k == "^" else show(path[1]) + k if k in "*+?" else "(" + (" %s " % k).join(show(x) for x in path[1]) + ")"


class Bad(Exception):
    pass


def read(text):
    """a SPARQL property path: PathAlternative > PathSequence > PathEltOrInverse > PathPrimary PathMod?"""
    toks = re.findall(r"<[^<>\"{}|^`\\\s]*>|[()^|/*+?]|\S", text)
    i = 0

    def peek():
        return toks[i] if i < len(toks) else None

    def take(x=None):
        nonlocal i
        t = peek()
        if t is None or x is not None and t != x:
            raise Bad("unexpected %s" % t)
        i += 1
        return t

    def alt():
        xs = [seq()]
        while peek() == "|":
            take()
            xs.append(seq())
        return xs[0] if len(xs) == 1 else ("|", tuple(xs))

    def seq():
        xs = [inv()]
        while peek() == "/":
            take()
            xs.append(inv())
        return xs[0] if len(xs) == 1 else ("/", tuple(xs))

    def inv():
        if peek() == "^":
            take()
            return ("^", elt())
        return elt()

    def elt():
        t = take()
        if t == "(":
            x = alt()
            take(")")
        elif t.startswith("<") and t.endswith(">"):
            x = ("p", t[1:-1])
        else:
            raise Bad("unexpected %s" % t)
        if peek() in ("*", "+", "?"):
            x = (take(), x)
        return x

    r = alt()
    if i != len(toks):
        raise Bad("rest " + " ".join(toks[i:]))
    return r


def ends(m, outs):
    return m.terms(outs)


def same(got, want):
    return isinstance(got, tuple) and frozenset(got) == frozenset(want)


_M = None


def stores(m):
    return {"in memory": (OX, lambda: m.mem(G1), G1), "data": (DATA, lambda: m.data(m.mem(G1), ()), G1),
            "data and endpoint": (DATA, lambda: m.data(m.mem(G1), (("one", m.endpoint("http://e/", G2)),)), G1 + G2), "endpoint": (EP, lambda: m.endpoint("http://e/", G2 + G1[:2]), G2 + G1[:2])}


def _work(x):
    m, f = _M
    sname, path, start, fail = x
    ty, mk, g = stores(m)[sname]
    v = mk()
    m.failing = set(m.ep) if fail else set()
    if fail:
        r = m.result(m.call(f[ty], v, term(start), value(m.P, path)))
        return r if isinstance(r, str) else "an answer"
    return ends(m, m.call(f[ty], v, term(start), value(m.P, path)))


def run(c):
    global _M
    P = c.prog
    c.rule("reach", "the nodes reached from a node by a path are exactly those the path relates it to, over graphs with cycles, self-loops, blank nodes and literals; every path and start node has an outcome")
    c.rule("views", "the same over the data merged with an endpoint and over an endpoint alone")
    c.rule("failing", "a path that has to look up a triple of a failing endpoint is an error, never an empty or partial answer")
    c.rule("text", "the text of a path put into a SPARQL query denotes the path")
    m = M(P)
    f = {ty: by(P, ty, NR, "objects_for_shacl_path") for ty in (OX, EP, DATA)}
    ok = SP in P.adts and [x["n"] for x in P.adts[SP]["v"]]
    if not c_anchor(c, "reach", None not in f.values() and ok and set(ok) == {"Predicate", "Alternative", "Sequence", "Inverse", "ZeroOrMore", "OneOrMore", "ZeroOrOne"}, "objects_for_shacl_path and the seven forms of SHACLPath (found %s)" % (ok,)):
        return
    _M = (m, f)
    lv = paths(2)
    jobs = []
    for d, ps in enumerate(lv):
        for k, p in enumerate(ps):
            # depth 2: every path from two nodes, the choice rotating through all nodes
            ns = NODES if d < 2 else [NODES[k % len(NODES)], NODES[(3 * k + 1) % len(NODES)]] if NODES[k % len(NODES)] != NODES[(3 * k + 1) % len(NODES)] else [NODES[k % len(NODES)]]
            jobs += [("reach", ("in memory", p, n, False)) for n in ns]
    p, q, z = [("p", x) for x in PREDS]
    deep = [("/", (p, p, q)), ("|", (z, p, q)), ("/", (("^", p), q, ("*", p))), ("*", ("/", (p, ("^", q)))), ("^", ("/", (p, ("+", q), p))), ("^", ("|", (("^", p), ("/", (q, p)), z))), ("+", ("|", (("^", p), ("/", (p, q))))),
            ("?", ("/", (("?", p), ("^", ("*", q))))), ("^", ("^", ("^", ("/", (p, q))))), ("*", ("*", ("+", ("?", p)))), ("/", (("|", (p, q)), ("|", (p, q)), ("|", (("^", p), q)))), ("^", ("*", ("^", ("/", (p, q))))),
            ("/", (("*", p), ("+", q), ("?", p), ("^", q))), ("|", (("/", (p, p, p, p)), ("/", (q, q)), ("^", ("/", (q, q))))), ("^", ("?", ("|", (p, ("/", (q, q, ("^", p))))))), ("/", ()), ("|", ())]
    jobs += [("reach", ("in memory", x, n, False)) for x in deep for n in NODES]
    small = lv[0] + lv[1][:12] + deep[:8] + [("/", (p, q)), ("|", (p, q)), ("^", ("/", (p, q))), ("*", ("|", (p, q)))]
    for s in ("data", "data and endpoint", "endpoint"):
        # a blank node of the data is not the one an endpoint names
        jobs += [("views", (s, x, n, False)) for x in small for n in (["a", "c", "e", LIT, "z"] if s != "endpoint" else ["e", "d", "b", "c"])]
    for s in ("data and endpoint", "endpoint"):
        for x in [p, ("^", p), ("*", p), ("+", q), ("?", p), ("|", (p, q)), ("/", (p, q)), ("^", ("/", (p, q))), ("*", ("^", p))]:
            jobs += [("failing", (s, x, n, True)) for n in ("a", "c")]
    # endpoint queries cannot name blank nodes: the view rows avoid them
    def judged(r, j):
        return r != "views" or j[0] == "in memory" or j[0] == "data" or not any(str(x).startswith("_:") for x in touched(stores(m)[j[0]][2], j[1], j[2]))
    jobs = [x for x in dict.fromkeys(jobs) if judged(*x)]
    import multiprocessing as mp, gc
    gc.freeze()
    with mp.get_context("fork").Pool(min(8, mp.cpu_count())) as pool:
        res = pool.map(_work, [j for _, j in jobs], chunksize=16)
    cnt = {}
    for (rid, (s, path, n, fail)), got in zip(jobs, res):
        ty, _, g = stores(m)[s]
        w = f[ty].where()
        if fail:
            okk, msg = got == "err", "%s: %s from %s over a failing endpoint must be an error but is %s" % (s, show(path), n, got)
        else:
            want = reach(g, path, n)
            okk, msg = same(got, want), "%s: %s from %s reaches %s instead of %s" % (s, show(path), n, got if not isinstance(got, tuple) else sorted(map(str, got)), sorted(map(str, want)))
        cnt[rid] = cnt.get(rid, 0) + 1
        c.ob(rid, "%s/%s from %s" % (s, show(path), n), w, okk, msg)
    for rid, k in cnt.items():
        c.floor(rid, k, "stores x paths x start nodes")
    text(c, P, lv, deep)


def touched(g, path, n):
    """the nodes an evaluation may come by: those connected with the start node by the predicates of the path in any direction"""
    return {x for t in g if t[1] in str(path) for x in (t[0], t[2])} | {n}


def c_anchor(c, rid, ok, what):
    if not ok:
        c.anchor(rid, "anchor", None, what)
    return ok


def text(c, P, lv, deep):
    """the SPARQL text of a path"""
    fs = [x for x in P.fns.values() if re.search(r"^shacl::.*path_to_sparql$", x.id)]
    if len(fs) != 1:
        c.anchor("text", "path_to_sparql", None, "the function writing a path as SPARQL")
        return
    f = fs[0]
    m = M(P)
    k = 0
    for path in lv[0] + lv[1] + lv[2][::7] + [d for d in deep if d[1]]:
        outs = m.call(f, value(P, path, lambda x: ("a", IRIS_ADT, "", (iri(x),))))
        rs = {r for r, _, _ in outs}
        r = rs.pop() if len(rs) == 1 else T
        got = m.text(r, None) if r[0] in ("s", "y") else None
        try:
            back = read(got) if got is not None else None
        except Bad as e:
            back = "no SPARQL path (%s)" % e
        ok = isinstance(back, tuple) and all(reach(G1, back, n) == reach(G1, path, n) and reach(G2, back, n) == reach(G2, path, n) for n in NODES)
        k += 1
        c.ob("text", show(path), f.where(), ok, "%s is put into the query as %s" % (show(path), got))
    c.floor("text", k, "paths")

