"""P17: the SHACL validation report."""
import itertools, re
from vf import absint
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *

TITLE = "SHACL validation report"
SH = "http://www.w3.org/ns/shacl#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
REP = "shacl::validator::report::"


class Graph:
    """an RDF graph under construction: triples are recorded with the facts of a path"""

    def __init__(self, prog, extra=()):
        self.prog = prog
        self.I = new_interp(prog, list(extra) + [(r"BuildRDF::(add_bnode|add_triple|add_type|add_prefix|add_base|set_prefix_map)$", self.h_build),
                                                   (r"IriS::new_unchecked$|NamedNode::new_unchecked$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)])])
        self.I.pol.handlers.append((re.compile(r"TryFrom(<.*>)?(>)?::try_from$|TryInto(<.*>)?(>)?::try_into$"), self.h_try))
        self.writer = self.I.sym("in", "WRITER")

    def h_build(self, I, site, name, callee, args, st):
        m = name.rsplit("::", 1)[1]
        a = [I.deref(x, st) for x in args]
        ns = st.fork()
        if m == "add_bnode":
            n = st.G.get(("bn",), 0)
            ns.G[("bn",)] = n + 1
            return [(Ok(I.sym("bnode", n)), ns)]
        if m in ("add_triple", "add_type"):
            t = tuple(self.norm(x) for x in (a[1:4] if m == "add_triple" else (a[1], ("s", RDF + "type"), a[2])))
            ns.G[("tr",)] = st.G.get(("tr",), ()) + (t,)
            return [(Ok(UNIT), ns)]
        return [(Ok(UNIT) if m == "set_prefix_map" else UNIT, ns)]

    def h_try(self, I, site, name, callee, args, st):
        """a blank node is a subject"""
        v = I.deref(args[0], st)
        t = I.tag(v) if v[0] == "y" else None
        return [(Ok(v), st)] if t and t[0] == "bnode" else None

    def norm(self, v):
        while v[0] == "a" and len(v[3]) == 1 and v[2] in ("Iri", "Literal", "NamedNode", "Term", "IriS", "BooleanLiteral", "", "Subject", "BlankNode"):
            v = v[3][0]
        return v

    def canon(self, n, G, seen=()):
        t = self.I.tag(n) if n[0] == "y" else None
        if t and t[0] == "bnode":
            if n in seen:
                return "cycle"
            return frozenset((self.show(p), self.canon(o, G, seen + (n,))) for s, p, o in G.get(("tr",), ()) if s == n)
        return self.show(n)

    def show(self, v):
        return v[1] if v[0] == "s" else self.I.show(v)

    def root(self, G):
        """the blank nodes that are no object"""
        tr = G.get(("tr",), ())
        os = {o for _, _, o in tr}
        return [s for s in dict.fromkeys(s for s, _, _ in tr) if s not in os]


def method(c, rid, ty, name):
    f = c.prog.fns.get(REP + ty + "::" + name)
    if f is None:
        c.ob(rid, "anchor/" + name, "-", False, "%s::%s not found" % (ty, name))
    return f


def result_value(c, I, n, sev=None, path=False, value=False, source=False):
    """a validation result built through its constructor and builders"""
    P = c.prog
    S = lambda x: I.sym("in", "%s%d" % (x, n))
    B = REP + "result::ValidationResult::"
    v = build(I, P, B + "new", [S("focus"), S("component"), sev if sev else S("severity")])
    for nm, on in (("path", path), ("value", value), ("source", source)):
        v = v and build(I, P, B + "with_" + nm, [v, Some(S(nm) if on is True else on) if on else NONE])
    return v


def report_value(c, I, results):
    P = c.prog
    B = REP + "ValidationReport::"
    v = build(I, P, B + "new", [])
    return v and build(I, P, B + "with_results", [v, ("L", tuple(results))])


def accessors(c):
    P = c.prog
    c.rule("accessors", "a validation result returns the focus node, component, severity, path, value, source, details and message it was built with; absent parts are absent")
    names = ["focus_node", "constraint_component", "severity", "path", "value", "source", "details", "message"]
    for opts in itertools.product((False, True), repeat=5):
        I = new_interp(P, [])
        S = lambda n: I.sym("in", n)
        B = REP + "result::ValidationResult::"
        v = build(I, P, B + "new", [S("focus_node"), S("constraint_component"), S("severity")])
        want = {"focus_node": S("focus_node"), "constraint_component": S("constraint_component"), "severity": S("severity")}
        for nm, on in zip(("path", "value", "source", "details"), opts):
            x = Some(S(nm)) if on else NONE
            v = v and build(I, P, B + "with_" + nm, [v, x])
            want[nm] = x
        if opts[4]:
            v = v and build(I, P, B + "with_message", [v, S("message")])
            want["message"] = S("message")
        if v is None:
            c.ob("accessors", "build", "-", False, "cannot build a validation result")
            continue
        for nm, x in want.items():
            got = build(I, P, B + nm, [v])
            c.ob("accessors", "%s/%s" % ("".join("01"[o] for o in opts), nm), B + nm, got == x, "ValidationResult::%s returns %s, not %s" % (nm, got and I.show(got)[:80], I.show(x)))
    c.floor("accessors", 32 * 7 + 16, "accessors x optional parts")


def conforms(c):
    P = c.prog
    c.rule("conforms", "a report conforms iff it has no results; get_count_of counts the results of the severity")
    f, g = method(c, "conforms", "ValidationReport", "conforms"), method(c, "conforms", "ValidationReport", "get_count_of")
    sevs = [v["n"] for v in P.variants("shacl::types::severity::Severity")] if "shacl::types::severity::Severity" in P.adts else []
    adt = [p for p in P.adts if p.endswith("::Severity") and p.startswith("shacl")][0]
    sevs = [v["n"] for v in P.variants(adt) if not v["f"]]
    c.ob("conforms", "severities", "-", len(sevs) >= 3, "the severities are %s" % sevs)
    for n in range(0, 4):
        for combo in itertools.product(sevs[:3], repeat=n):
            I = new_interp(P, [])
            rs = [result_value(c, I, i, ("a", adt, s, ())) for i, s in enumerate(combo)]
            rep = report_value(c, I, rs)
            got = build(I, P, f.id, [rep]) if f and rep else None
            c.ob("conforms", "conforms/" + "+".join(combo), f.where() if f else "-", got == ("b", n == 0), "a report with results of severity %s: conforms() is %s" % (list(combo), got))
            if g and n < 3 or n == 3 and len(set(combo)) == 2:
                for s in sevs:
                    got = build(I, P, g.id, [rep, ("a", adt, s, ())])
                    c.ob("conforms", "count/%s/%s" % ("+".join(combo), s), g.where(), got == ("i", combo.count(s)), "get_count_of(%s) of results %s is %s" % (s, list(combo), got))


def equality(c):
    """results are collected in sets: two of them are one only if they are the same result"""
    P = c.prog
    c.rule("equality", "two results are equal only if they have the same focus node, component, severity, path, value and source")
    fs = [f for f in P.fns.values() if re.search(r"ValidationResult as .*PartialEq.*>::eq$", f.id)]
    if not c.anchor("equality", "eq", fs, "the equality of validation results"):
        return
    adt = [p for p in P.adts if p.endswith("::Severity") and p.startswith("shacl")][0]
    parts = ("focus", "component", "severity", "path", "value", "source")
    for diff in [()] + [(p,) for p in parts] + [(p, "absent") for p in parts[3:]]:
        eq = lambda I, s, n, cc, a, st: [(TRUE if I.deref(a[0], st) == I.deref(a[1], st) else FALSE, st)]
        I = new_interp(P, [(r"PartialEq(<.*>)?(>)?::eq$", eq)])

        def res(k):
            S = lambda x: I.sym("in", "%s%d" % (x, 1 if k and x in diff else 0))
            B = REP + "result::ValidationResult::"
            sev = ("a", adt, "Warning" if k and "severity" in diff else "Info", ())
            v = build(I, P, B + "new", [S("focus"), S("component"), sev])
            for nm in ("path", "value", "source"):
                v = v and build(I, P, B + "with_" + nm, [v, NONE if k and nm in diff and "absent" in diff else Some(S(nm))])
            return v
        a, b = res(0), res(1)
        outs = I.exec_fn(fs[0], (a, b), (), {}, (), ()) if a and b else []
        got = {o[0] for o in outs}
        c.ob("equality", "/".join(diff) or "same", fs[0].where(), got == {FALSE if diff else TRUE}, "results that differ in %s are equal: %s" % (" ".join(diff) or "nothing", [I.show(g) for g in got]))
    c.floor("equality", 10, "pairs of results")


def want_path(p):
    if isinstance(p, str):
        return p
    k, x = p
    if k == "seq" or k == "alt":
        l = RDF + "nil"
        for e in reversed(x):
            l = frozenset(((RDF + "first", want_path(e)), (RDF + "rest", l)))
        return l if k == "seq" else frozenset(((SH + "alternativePath", l),))
    return frozenset(((SH + {"inv": "inversePath", "star": "zeroOrMorePath", "plus": "oneOrMorePath", "opt": "zeroOrOnePath"}[k], want_path(x)),))


PATHS = ["a", ("seq", ["a", "b"]), ("alt", ["a", "b"]), ("seq", ["a", "b", "c"]), ("alt", ["a", "b", "c"]), ("inv", "a"), ("star", "a"), ("plus", "a"), ("opt", "a"),
         ("seq", [("inv", "a"), ("star", "b")]), ("alt", [("seq", ["a", "b"]), ("plus", "c")]), ("inv", ("seq", ["a", "b"])), ("star", ("alt", ["a", "b"])),
         ("opt", ("inv", ("plus", "a"))), ("seq", ["a", ("seq", ["b", "c"])]), ("alt", ["a"]), ("seq", [("alt", ["a", "b"]), ("opt", "c")])]
PADT = None


def path_value(P, p):
    adt = [x for x in P.adts if x.endswith("::SHACLPath")][0]
    var = {"seq": "Sequence", "alt": "Alternative", "inv": "Inverse", "star": "ZeroOrMore", "plus": "OneOrMore", "opt": "ZeroOrOne"}
    if isinstance(p, str):
        return ("a", adt, "Predicate", (("s", p),))
    k, x = p
    if k in ("seq", "alt"):
        return ("a", adt, var[k], (("L", tuple(path_value(P, e) for e in x)),))
    return ("a", adt, var[k], (path_value(P, x),))


def writing(c):
    P = c.prog
    c.rule("resultrdf", "ValidationResult::to_rdf writes type, sh:focusNode, sh:sourceConstraintComponent, sh:resultSeverity, one sh:resultMessage per message, and sh:sourceShape, sh:resultPath, sh:value iff present")
    f = method(c, "resultrdf", "result::ValidationResult", "to_rdf")
    if f is None:
        return
    adt = [p for p in P.adts if p.endswith("::Severity") and p.startswith("shacl")][0]
    cases = [(o, s, m, "a") for o in itertools.product((False, True), repeat=3) for s in ("Violation", "Warning", "Info") for m in (0, 1, 2)]
    cases += [((True, True, True), "Violation", 0, p) for p in PATHS[1:]]
    for opts, sev, nm, path in cases:
        g = Graph(P, [(r"MessageMap::iter_literals$", None)])
        I = g.I
        msgs = ("L", tuple(I.sym("in", "msg%d" % i) for i in range(nm)))
        I.pol.handlers[0] = (re.compile(r"MessageMap::iter_literals$"), lambda I, s, n, cc, a, st, msgs=msgs: [(("it", msgs), st)])
        v = result_value(c, I, 1, ("a", adt, sev, ()), path_value(P, path) if opts[0] else False, opts[1], opts[2])
        node = I.sym("bnode", "r")
        outs = I.exec_fn(f, (v, ("p", -1, ()), node), (g.writer,), {}, (), ()) if v else []
        S = lambda x: I.show(I.sym("in", "%s1" % x))
        want = {(RDF + "type", SH + "ValidationResult"), (SH + "focusNode", S("focus")), (SH + "sourceConstraintComponent", S("component")), (SH + "resultSeverity", SH + sev)}
        want |= {(SH + "resultMessage", "msg%d" % i) for i in range(nm)}
        want |= {x for o, x in zip(opts, ((SH + "resultPath", want_path(path)), (SH + "value", S("value")), (SH + "sourceShape", S("source")))) if o}
        got = [g.canon(node, o[2]) if o[0][2] == "Ok" else "error" for o in outs]
        stray = [t for o in outs for t in o[2].get(("tr",), ()) if I.tag(t[0]) is None or I.tag(t[0])[0] != "bnode"]
        k = "%s/%s/%d/%s" % ("".join("01"[o] for o in opts), sev, nm, path if isinstance(path, str) else repr(path).replace(" ", ""))
        c.ob("resultrdf", k, f.where(), bool(got) and all(x == frozenset(want) for x in got) and not stray, "the result node must have %s but a path writes %s" % (
            sorted(map(str, want)), [sorted(map(str, x)) if x != "error" else x for x in got][:2]))


def reportrdf(c):
    P = c.prog
    c.rule("reportrdf", "ValidationReport::to_rdf writes one sh:ValidationReport node with sh:conforms true iff there are no results and one sh:result per result, each written as a node of its own")
    f = method(c, "reportrdf", "ValidationReport", "to_rdf")
    if f is None:
        return
    mark = lambda I, s, n, cc, a, st: [(Ok(UNIT), put(st, ("tr",), st.G.get(("tr",), ()) + ((I.deref(a[2], st), ("s", "is"), I.deref(a[0], st)),)))]
    for n in range(0, 5):
        for dup in ((False, True) if n > 1 else (False,)):
            g = Graph(P, [(r"ValidationResult::to_rdf$", mark)])
            I = g.I
            rs = [result_value(c, I, 0 if dup else i) for i in range(n)]
            rep = report_value(c, I, rs)
            outs = I.exec_fn(f, (rep, ("p", -1, ())), (g.writer,), {}, (), ())
            ok = bool(outs)
            got = None
            for o in outs:
                roots = g.root(o[2])
                tr = o[2].get(("tr",), ())
                got = tr
                r = roots[0] if len(roots) == 1 else None
                kids = [x[2] for x in tr if x[0] == r and g.show(x[1]) == SH + "result"]
                own = sorted((g.show(x[1]), g.show(x[2])) for x in tr if x[0] == r and g.show(x[1]) != SH + "result")
                isof = {x[0]: x[2] for x in tr if x[1] == ("s", "is")}
                ok = ok and (o[0][2] == "Ok" and r is not None and len(kids) == n and len(set(kids)) == n and sorted(map(str, (isof.get(k) for k in kids))) == sorted(map(str, rs))
                             and own == sorted([(RDF + "type", SH + "ValidationReport"), (SH + "conforms", "True" if n == 0 else "False")]) and len(tr) == 2 + 2 * n)
            c.ob("reportrdf", "%d%s" % (n, "/equal" if dup else ""), f.where(), ok, "a report of %d results is written as %s" % (n, got and [tuple(g.show(x) for x in t) for t in got][:8]))
    c.floor("reportrdf", 8, "numbers of results")


def put(st, k, v):
    ns = st.fork()
    ns.G[k] = v
    return ns


REQ = {SH + "focusNode": "focus_node", SH + "resultSeverity": "severity", SH + "sourceConstraintComponent": "constraint_component"}
OPTL = {SH + "resultPath": "path", SH + "sourceShape": "source", SH + "value": "value"}


def parsing(c):
    P = c.prog
    c.rule("parse", "reading a report takes every sh:result of the node; a result takes sh:focusNode, sh:resultSeverity and sh:sourceConstraintComponent (an error if missing or if the severity is no IRI), "
           "sh:resultPath, sh:sourceShape and sh:value; a reader failure is an error")
    f = method(c, "parse", "result::ValidationResult", "parse")
    adt = [p for p in P.adts if p.endswith("::Severity") and p.startswith("shacl")][0]
    obj = [p for p in P.adts if p.startswith("rudof_rdf::") and p.endswith("::Object") and {"Iri", "Literal"} <= {v["n"] for v in P.variants(p)}]
    if not c.anchor("parse", "Object", obj, "the Object type") or f is None:
        return
    keys = list(REQ) + list(OPTL)
    sevs = {SH + x: x for x in ("Trace", "Debug", "Info", "Warning", "Violation")}
    cases = [(dict(zip(keys, bits)), s) for bits in itertools.product((True, False), repeat=6) for s in (SH + "Warning",)]
    cases += [(dict.fromkeys(keys, True), s) for s in list(sevs) + ["http://e/other", None]] + [(dict.fromkeys(keys, True), "fail:" + k) for k in keys]
    for have, sev in cases:
        def look(I, s, n, cc, a, st, have=have, sev=sev):
            p = I.deref(a[2], st)
            while p[0] == "a" and len(p[3]) == 1:
                p = p[3][0]
            k = p[1] if p[0] == "s" else "?"
            if sev == "fail:" + k:
                return [(Err(I.sym("in", "E")), st)]
            if k not in have:
                return [(I.sym("unknown", k), st)]
            if not have[k]:
                return [(Ok(NONE), st)]
            if k == SH + "resultSeverity":
                x = ("a", obj[0], "Iri", (("s", SH + "Warning" if sev and sev.startswith("fail") else sev),)) if sev else ("a", obj[0], "Literal", (I.sym("in", "lit"),))
            else:
                x = I.sym("in", k)
            return [(Ok(Some(x)), st)]
        I = new_interp(P, [(r"::(object_for|get_path_for)$", look), (r"IriS::new_unchecked$|NamedNode::new_unchecked$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]),
                           (r"IriS::named_node$|NamedNode::as_str$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)])])
        outs = I.exec_fn(f, (("p", -1, ()), I.sym("in", "R")), (I.sym("in", "STORE"),), {}, (), ())
        bad = sev is None or sev.startswith("fail") or not all(have[k] for k in REQ)
        ok, got = bool(outs), []
        for o in outs:
            if bad or o[0][2] != "Ok":
                got.append(o[0][2])
                ok = ok and bad and o[0][2] == "Err"
                continue
            fs = {nm: build(I, P, REP + "result::ValidationResult::" + nm, [o[0][3][0]]) for nm in list(REQ.values()) + list(OPTL.values())}
            want = {nm: I.sym("in", k) for k, nm in REQ.items()}
            want.update({nm: Some(I.sym("in", k)) if have[k] else NONE for k, nm in OPTL.items()})
            s2 = fs.pop("severity")
            want.pop("severity")
            sok = s2 and s2[0] == "a" and (s2[2] == sevs[sev] if sev in sevs else s2[2] == "Generic" and s2[3] == (("s", sev),))
            got.append({k: v and I.show(v) for k, v in fs.items()})
            ok = ok and fs == want and bool(sok)
        k = "".join("01"[have[k]] for k in keys) + "/" + (sev or "literal").rsplit("/", 1)[-1].rsplit("#", 1)[-1] + ("/fail" if sev and sev.startswith("fail") else "")
        c.ob("parse", "result/" + k, f.where(), ok, "reading a result with %s, severity %s gives %s" % ([x for x in keys if have[x]], sev, got[:2]))
    g = method(c, "parse", "ValidationReport", "parse")
    if g is None:
        return
    for n in range(0, 4):
        for failing in [None, "list"] + list(range(n)):
            def objs(I, s, nn, cc, a, st, n=n, failing=failing):
                p = I.deref(a[2], st)
                while p[0] == "a" and len(p[3]) == 1:
                    p = p[3][0]
                if p != ("s", SH + "result"):
                    return [(I.sym("unknown", p), st)]
                return [(Err(I.sym("in", "E")) if failing == "list" else Ok(("L", tuple(I.sym("in", "r%d" % i) for i in range(n)))), st)]
            I = new_interp(P, [(r"::objects_for$", objs), (r"IriS::new_unchecked$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)]),
                               (r"ValidationResult::parse$", lambda I, s, n, cc, a, st, failing=failing: [(Err(I.sym("in", "E")) if isinstance(failing, int) and I.deref(a[1], st) == I.sym("in", "r%d" % failing)
                                                                                                   else Ok(I.sym("parsed", I.deref(a[1], st))), st)])])
            outs = I.exec_fn(g, (("p", -1, ()), I.sym("in", "NODE")), (I.sym("in", "STORE"),), {}, (), ())
            got = []
            for o in outs:
                if o[0][2] != "Ok":
                    got.append("error")
                    continue
                v = build(I, P, REP + "ValidationReport::results", [o[0][3][0]])
                got.append(sorted(I.show(x) for x in v[1]) if v and v[0] == "L" else "?")
            want = "error" if failing is not None else ["parsed(r%d)" % i for i in range(n)]
            c.ob("parse", "report/%d/%s" % (n, failing), g.where(), bool(got) and all(x == want for x in got), "reading a report of %d results (failing: %s) gives %s" % (n, failing, got[:2]))
    c.floor("parse", 64 + 13 + 14, "present parts x severities, reports")


LEVELS = [[], [["A"]], [["A", "B"]], [["A"], ["B"]], [["A", "B"], ["C"]], [["A"], ["B", "C"], ["D"]], [["A", "B", "C"]]]


def processing(c):
    P = c.prog
    c.rule("processor", "validating a store gives a report whose results are the results of every shape with targets, each shape validated once on its targets (nothing inherited from a caller), in the order of the levels; "
           "an error of preparing the store, the indexes or any shape is the result")
    fs = [f for f in P.fns.values() if f.id.endswith("processor::ShaclProcessor::validate") and f.kind in ("fn", "method")]
    if not c.anchor("processor", "validate", fs, "ShaclProcessor::validate"):
        return
    f = fs[0]
    for levels in LEVELS:
        shapes = [x for l in levels for x in l]
        for nres in ((0, 1, 2) if shapes else (0,)):
            for bad in [None, "prepare", "index"] + shapes + ["missing " + x for x in shapes[:1]]:
                E = lambda I: Err(I.sym("in", "E"))
                S = lambda I, x: I.sym("in", x)

                def h_shape(I, s, n, cc, a, st, bad=bad):
                    x = I.deref(a[1], st)
                    return [(E(I) if bad == "missing " + I.show(x) else Ok(I.sym("shape", x)), st)]

                def h_val(I, s, n, cc, a, st, bad=bad, nres=nres):
                    x = [I.deref(y, st) for y in a]
                    t = I.tag(x[0]) if x[0][0] == "y" else None
                    if not t or t[0] != "shape":
                        return [(I.sym("badshape", x[0]), st)]
                    nm = I.show(t[1])
                    ns = put(st, ("run",), st.G.get(("run",), ()) + ((nm, x[1], x[2], x[3], x[4], x[5]),))
                    if bad == nm:
                        return [(E(I), ns)]
                    return [(Ok(("L", tuple(I.sym("result", t[1], i) for i in range(nres)))), ns)]
                h = [(r"ShaclProcessor(<.*>)?(>)?::prepare_store$", lambda I, s, n, cc, a, st, bad=bad: [(E(I) if bad == "prepare" else Ok(UNIT), st)]),
                     (r"ShaclProcessor(<.*>)?(>)?::store$", lambda I, s, n, cc, a, st: [(S(I, "STORE"), st)]),
                     (r"ShaclProcessor(<.*>)?(>)?::runner$", lambda I, s, n, cc, a, st: [(I.sym("engine", "master", I.deref(a[0], st)), st)]),
                     (r"Engine(<.*>)?(>)?::build_indexes$", lambda I, s, n, cc, a, st, bad=bad: [(E(I), st)] if bad == "index" else
                      [(Ok(UNIT), put(st, ("indexed",), (I.deref(a[0], st), I.deref(a[1], st))))]),
                     (r"Engine(<.*>)?(>)?::fork$", lambda I, s, n, cc, a, st: [(I.sym("engine", "fork", I.deref(a[0], st)), st)]),
                     (r"IRSchema::shapes_with_targets_by_level$", lambda I, s, n, cc, a, st, levels=levels: [(("L", tuple(("L", tuple(S(I, x) for x in l)) for l in levels)), st)]),
                     (r"IRSchema::get_shape_from_idx_e$", h_shape), (r"PrefixMap::merge$", lambda I, s, n, cc, a, st: [(UNIT, st)]),
                     (r"Validate(<.*>)?(>)?::validate$", h_val)]
                I = new_interp(P, h)
                outs = I.exec_fn(f, (("p", -1, ()), S(I, "SCHEMA"), S(I, "MODE")), (S(I, "PROCESSOR"),), {}, (), ())
                master = I.sym("engine", "master", S(I, "MODE"))
                fork = I.sym("engine", "fork", master)
                ok, got = bool(outs), []
                for o in outs:
                    runs = o[2].get(("run",), ())
                    names = [r[0] for r in runs]
                    calls = all(r[1] == S(I, "STORE") and r[2] in (fork, master) and r[3] == NONE and r[4] in (NONE, Some(I.sym("shape", S(I, r[0])))) and r[5] == S(I, "SCHEMA") for r in runs)
                    if o[0][2] != "Ok":
                        got.append("error")
                        ok = ok and bad is not None
                        continue
                    rs = build(I, P, REP + "ValidationReport::results", [o[0][3][0]])
                    rs = [I.show(x) for x in rs[1]] if rs and rs[0] == "L" else "not exact"
                    want = [I.show(I.sym("result", S(I, x), i)) for x in shapes for i in range(nres)]
                    got.append((names, rs) if calls else ("unexpected arguments", [[I.show(y) for y in r[1:]] for r in runs]))
                    order = [[i for i, l in enumerate(levels) if x in l][0] for x in names if x in shapes]
                    ok = ok and bad is None and sorted(names) == sorted(shapes) and order == sorted(order) and sorted(rs) == sorted(want) and calls and o[2].get(("indexed",)) == (master, S(I, "STORE"))
                c.ob("processor", "%s/%d/%s" % ("+".join("".join(l) for l in levels) or "-", nres, bad), f.where(), ok,
                     "levels %s with %d results per shape%s give %s" % (levels, nres, ", failing: %s" % bad if bad else "", got[:2]))
    c.floor("processor", 100, "levels x results per shape x failure")


def text(c):
    P = c.prog
    c.rule("text", "the minimal output says Conforms iff the report conforms, else the numbers of violations and warnings; the table has one row per result, in their order, with severity, focus node, component, path, value and source shape")
    adt = [p for p in P.adts if p.endswith("::Severity") and p.startswith("shacl")][0]
    sevs = [v["n"] for v in P.variants(adt) if not v["f"]]
    W = lambda I, s, n, cc, a, st: [(Ok(UNIT), put(st, ("out",), st.G.get(("out",), ()) + (I.deref(a[1], st),)))]
    fs = [f for f in P.fns.values() if f.kind in ("fn", "method") and f.id.split("::")[-1].endswith("validation_results_minimal") and "shacl" in f.id]
    if c.anchor("text", "minimal", fs, "serialize_shacl_validation_results_minimal"):
        f = fs[0]
        for n in range(0, 4):
            for combo in itertools.product(sevs[:3], repeat=n):
                I = new_interp(P, [(r"Write(>)?::write_fmt$", W)])
                rep = report_value(c, I, [result_value(c, I, i, ("a", adt, s, ())) for i, s in enumerate(combo)])
                outs = I.exec_fn(f, (rep, ("p", -1, ())), (I.sym("in", "W"),), {}, (), ()) if rep else []
                got = ["".join(x[1] if x[0] == "s" else "?" for x in o[2].get(("out",), ())) for o in outs]
                nums = [re.findall(r"\d+", g) for g in got]
                want = [] if n == 0 else [str(combo.count("Violation")), str(combo.count("Warning"))]
                good = len(got) == 1 and nums[0] == want and (got[0].strip() == "Conforms") == (n == 0) and "?" not in got[0]
                c.ob("text", "minimal/" + "+".join(combo), f.where(), good, "results %s print %s" % (list(combo), got[:2]))
    fs = [f for f in P.fns.values() if f.kind in ("fn", "method") and "ValidationReport" in f.id and f.id.endswith("Table>::table")]
    if c.anchor("text", "table", fs, "Table::table of the validation report"):
        f = fs[0]
        sh = lambda I, s, n, cc, a, st: [(I.sym("shown", I.deref(a[1], st)), st)]
        for n, det, opt in itertools.product((0, 1, 2), (False, True), itertools.product((False, True), repeat=3)):
            if n == 0 and any(opt):
                continue
            h = [(r"Write(>)?::write_fmt$", W), (r"Show(>)?::show$|PrefixMap::(show|qualify)$", sh),
                 (r"push_record$", lambda I, s, n, cc, a, st: [(UNIT, put(st, ("rows",), st.G.get(("rows",), ()) + (I.deref(a[1], st),)))])]
            I = new_interp(P, h)
            rs = [result_value(c, I, i, ("a", adt, sevs[i % len(sevs)], ()), *opt) for i in range(n)]
            rep = report_value(c, I, rs)
            outs = I.exec_fn(f, (rep, I.sym("in", "W"), Some(TRUE if det else FALSE), Some(FALSE), NONE), (), {}, (), ()) if rep else []
            ok, got = bool(outs), []
            for o in outs:
                rows = o[2].get(("rows",), ())
                if n == 0:
                    ok = ok and not rows and len(o[2].get(("out",), ())) == 1
                    continue
                body = rows[1:]
                ok = ok and len(body) == n and o[2].get(("out",)) is not None
                for i, r in enumerate(body):
                    S = lambda x: I.sym("in", "%s%d" % (x, i))
                    cell = lambda x: I.sym("shown", x)
                    w = [cell(S("focus")), cell(S("component"))] + [cell(Some(S(x)) if on else NONE) for x, on in zip(("path", "value", "source"), opt)]
                    # header: Severity, Node, Component, Path, Value, Source shape
                    g = list(r[1][1:6]) if r[0] == "L" else None
                    got.append([I.show(x) for x in r[1]] if r[0] == "L" else I.show(r))
                    ok = ok and g is not None and len(r[1]) == 6 + det and g == w and sevs[i % len(sevs)] in I.show(r[1][0])
            c.ob("text", "table/%d/%s/%s" % (n, det, "".join("01"[x] for x in opt)), f.where(), ok, "the table of %d results has the rows %s" % (n, got[:2]))
    fs = [f for f in P.fns.values() if re.search(r"ValidationReport as .*Display>::fmt$", f.id)]
    if c.anchor("text", "display", fs, "Display of the validation report"):
        f = fs[0]
        sh = lambda I, s, n, cc, a, st: [(I.sym("shown", I.deref(a[1], st)), st)]
        for n in range(0, 3):
            for combo in [sevs[:n], sevs[1:1 + n]] if n else [[]]:
                I = new_interp(P, [(r"Show(>)?::show$|PrefixMap::(show|qualify)$", sh)])
                rs = [result_value(c, I, i, ("a", adt, s, ()), n < 2, n < 2, n < 2) for i, s in enumerate(combo)]
                rep = report_value(c, I, rs)
                outs = I.exec_fn(f, (rep, ("p", -1, ())), (("s", ""),), {}, (), ()) if rep else []
                got = [o[1][0][1] if o[1][0][0] == "s" else I.show(o[1][0]) for o in outs]
                ok = len(got) == 1 and re.match(r"\D*%d\D" % n if n else r"\D*$", re.sub(r"^\w*\W*cat\W*", "", got[0])) is not None
                parts = ("focus", "component") + (("path", "value", "source") if n == 1 else ())
                ok = ok and all(list(dict.fromkeys(re.findall(x + r"\d+", got[0]))) == ["%s%d" % (x, i) for i in range(n)] for x in parts)
                c.ob("text", "display/" + "+".join(combo), f.where(), ok, "results %s are displayed as %s" % (list(combo), got[:2]))
    c.floor("text", 65, "reports rendered as text")


def component_iris(c):
    """every kind of constraint is named by its own constraint component"""
    P = c.prog
    c.rule("component-iri", "the source constraint component of a result of sh:xyz is sh:XyzConstraintComponent")
    adt = [p for p in P.adts if p.startswith("shacl::ir::") and p.endswith("::IRComponent")]
    fs = [f for f in P.fns.values() if re.search(r"From<&('\w+ )?shacl::ir::component::IRComponent>.*IriS>::from$|IriS as .*From<&('\w+ )?shacl::ir::component::IRComponent>>::from$", f.id)]
    if not (c.anchor("component-iri", "type", adt, "the IR component type") and c.anchor("component-iri", "from", fs, "the conversion of a component to its IRI")):
        return
    special = {"NodeKind": "NodeKind", "BasicSparql": "SPARQL"}
    for v in P.variants(adt[0]):
        I = new_interp(P, [(r"IriS::new_unchecked$|NamedNode::new_unchecked$|IriS::named_node$", lambda I, s, n, cc, a, st: [(I.deref(a[0], st), st)])])
        outs = I.exec_fn(fs[0], (("a", adt[0], v["n"], (I.sym("in", "payload"),)),), (), {}, (), ())
        got = set()
        for o in outs:
            x = o[0]
            while x[0] == "a" and len(x[3]) == 1:
                x = x[3][0]
            got.add(x[1] if x[0] == "s" else I.show(x))
        w = SH + special.get(v["n"], v["n"]) + "ConstraintComponent"
        c.ob("component-iri", v["n"], fs[0].where(), got == {w}, "the component IRI of %s is %s, not %s" % (v["n"], sorted(got)[:2], w))
    c.floor("component-iri", 29, "kinds of constraint components")


def run(c):
    from checks import p16
    p16.levels(c)
    accessors(c)
    component_iris(c)
    conforms(c)
    equality(c)
    writing(c)
    reportrdf(c)
    parsing(c)
    processing(c)
    text(c)
