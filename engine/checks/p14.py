"""SHACL logical and shape-based constraints: truth tables of both engines."""
from vf.shacl import *

TITLE = "SHACL logical and shape-based constraints have their standard truth tables in both validation engines"


def table(c, rid, key, F, component, atoms, spec, text):
    outs = F.run(component)
    bad, rows = decide(outs, atoms, spec, verdict(F))
    c.scope["rows"] = c.scope.get("rows", 0) + rows
    msg = ""
    if bad:
        a, w, g = bad[0]
        msg = "%s; for %s the results must be %s but a path yields %s (%d of %d rows differ)" % (
            text, show_asg(a) or "every input", sorted(w, key=str) if not isinstance(w, str) else w,
            [sorted(x, key=str) if not isinstance(x, str) else x for x in sorted(g, key=str)], len(bad), rows)
    c.ob(rid, key, "%s -> %s" % (F.fn.where(), component[2]), not bad and rows > 0, msg)


def run(c):
    P = c.prog
    c.rule("logical", "sh:and / sh:or / sh:xone / sh:not / sh:node: for every combination of inner conformance the validator yields exactly the violations the "
           "SHACL definition gives: one result per offending (focus node, value node), naming the focus node, the value, the component, the path, the shape and its severity")
    c.rule("qualified", "sh:qualifiedValueShape: min/max count results for every combination of inner conformance, sibling conformance and bounds")
    for w in ("native", "sparql"):
        def res(F, comp, bad):
            return frozenset((I.show(f), I.show(v), "sh:" + comp, "") for f, v in bad)
        # value node configurations: several values per focus, the same value for several focus nodes
        for vi, vns in enumerate([(("F", ("v1",)),), (("F", ("v1", "v2")),), (("F", ("v1",)), ("G", ("v1", "v2")))]):
            for name, comp, rule in (("And", "AndConstraintComponent", lambda cs: all(cs)),
                                     ("Or", "OrConstraintComponent", lambda cs: any(cs)),
                                     ("Xone", "XoneConstraintComponent", lambda cs: sum(cs) == 1)):
                for k in (range(0, 5) if vi == 0 else (2,)):
                    F = Frame(P, w, vns=vns)
                    I = F.I
                    idx = [I.sym("in", "s%d" % (i + 1)) for i in range(k)]
                    inner = build(I, P, COMP + name.lower() + "::" + name + "::new", [("L", tuple(idx))])
                    if inner is None:
                        c.ob("logical", "%s/%s" % (w, name), "-", False, "cannot build the component " + name)
                        continue
                    vals = sorted({v for _, ns in F.vns for v in ns})
                    atoms = [F.conforms(i, v) for i in idx for v in vals]

                    def spec(a, F=F, idx=idx, rule=rule, comp=comp, I=I):
                        out = []
                        for f, ns in F.vns:
                            for v in ns:
                                if not rule([a["%s(%s)" % (I.show(i), I.show(v))] for i in idx]):
                                    out.append((f, v))
                        return frozenset((I.show(f), I.show(v), "sh:" + comp, "") for f, v in out)
                    table(c, "logical", "%s/%s/%d/%d" % (w, name, k, vi), F, F.comp(name, inner), atoms, spec,
                          "%s with %d member shapes in the %s engine" % (name, k, w))
            for name, comp, neg in (("Not", "NotConstraintComponent", True), ("Node", "NodeConstraintComponent", False)):
                F = Frame(P, w, vns=vns)
                I = F.I
                s = I.sym("in", "s1")
                inner = build(I, P, COMP + name.lower() + "::" + name + "::new", [s])
                if inner is None:
                    c.ob("logical", "%s/%s" % (w, name), "-", False, "cannot build the component " + name)
                    continue
                vals = sorted({v for _, ns in F.vns for v in ns})
                atoms = [F.conforms(s, v) for v in vals]
                if name == "Node":
                    atoms += [bool_atom(I, "validated(%s)" % I.show(v), I.sym("hasvalidated", F.obj(v), s)) for v in vals]

                def spec(a, F=F, comp=comp, I=I, s=s, neg=neg):
                    return frozenset((I.show(f), I.show(v), "sh:" + comp, "") for f, ns in F.vns for v in ns
                                     if a["%s(%s)" % (I.show(s), I.show(v))] == neg)
                table(c, "logical", "%s/%s/%d" % (w, name, vi), F, F.comp(name, inner), atoms, spec, "%s in the %s engine" % (name, w))
        # qualified value shapes
        B = (None, 0, 1, 2, 3)
        QV = [((("F", tuple("v%d" % i for i in range(1, n + 1))),), ns) for n, ns in ((0, 0), (1, 0), (3, 0), (2, 1), (1, 2), (2, 2))]
        # several focus nodes: each is counted on its own
        QV += [((("F", ("v1",)), ("G", ("v1", "v2"))), 0), ((("F", ("v1", "v2")), ("G", ("v3",)), ("H", ())), 0), ((("F", ("v1",)), ("G", ("v2",))), 1)]
        for vns, ns in QV:
            n = "+".join(str(len(v)) for _, v in vns)
            for lo in B:
                for hi in B:
                    if (n == "2" and ns == 2 or len(vns) > 1) and (lo, hi) not in ((1, None), (None, 1), (2, 2), (2, 1)):
                        continue
                    F = Frame(P, w, vns=vns)
                    I = F.I
                    s = I.sym("in", "q")
                    sib = [I.sym("in", "sib%d" % i) for i in range(1, ns + 1)]
                    opt = lambda x: NONE if x is None else Some(("i", x))
                    inner = build(I, P, COMP + "qualified_value_shape::QualifiedValueShape::new",
                                  [s, opt(lo), opt(hi), Some(("b", ns > 0)), ("L", tuple(sib))])
                    if inner is None:
                        c.ob("qualified", "%s/build" % w, "-", False, "cannot build the component QualifiedValueShape")
                        continue
                    atoms = [F.conforms(x, v) for x in [s] + sib for v in sorted({v for _, vals in F.vns for v in vals}, key=str)]

                    def spec(a, I=I, s=s, sib=sib, lo=lo, hi=hi, F=F):
                        out = set()
                        for fn, vals in F.vns:
                            cnt = sum(a["%s(%s)" % (I.show(s), I.show(v))] and not any(a["%s(%s)" % (I.show(x), I.show(v))] for x in sib) for v in vals)
                            if lo is not None and cnt < lo:
                                out.add((I.show(fn), None, "sh:QualifiedMinCountConstraintComponent", ""))
                            if hi is not None and cnt > hi:
                                out.add((I.show(fn), None, "sh:QualifiedMaxCountConstraintComponent", ""))
                        return frozenset(out)
                    table(c, "qualified", "%s/%s/%d/%s/%s" % (w, n, ns, lo, hi), F, F.comp("QualifiedValueShape", inner), atoms, spec,
                          "qualified value shape with %s value nodes, %d siblings, min %s, max %s in the %s engine" % (n, ns, lo, hi, w))
    c.floor("logical", 2 * (3 * (5 + 1 + 1) + 2 * 3), "components x engines x configurations")
    c.floor("qualified", 2 * (5 * 25 + 4 + 12), "bounds x configurations")
    from checks import p16
    p16.components(c, "^(and|or|xone|not|node|qualified)(/|$)", 65)
    p16.graphs(c, "qualified|candidate/(members|value of n)", 15, False)
    c.notes.append("member lists are decided for 0-4 shapes and 1-2 value nodes per focus; the loops treat further members alike (their state is a flag or a counter)")
