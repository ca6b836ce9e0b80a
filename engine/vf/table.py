"""Decision tables: a function is interpreted abstractly with named stable operations as atoms; every outcome carries
the facts it assumed; for every assignment of the atoms all consistent outcomes must equal the row the property demands."""
import itertools, re
from . import absint
from .absint import Policy, State, T, TRUE, FALSE, NONE, Some, Ok, Err, UNIT, Budget


class TPolicy(Policy):
    budget = 200000
    per_fn = 60000
    inline_display = False
    keep_all = True
    max_depth = 30
    exact = True

    def keep(self, I, key, val):
        return self.keep_all

    def __init__(self, handlers=()):
        self.handlers = [(re.compile(rx), f) for rx, f in handlers]
        self.seen = {}

    def on_call(self, I, site, name, callee, args, st):
        for rx, f in self.handlers:
            if rx.search(name) or (callee[0] == "f" and callee[1] != name and rx.search(callee[1])):
                r = f(I, site, name, callee, args, st)
                if r is not None:
                    self.seen[rx.pattern] = self.seen.get(rx.pattern, 0) + 1
                    return r
        return None


def new_interp(prog, handlers, **kw):
    pol = TPolicy(handlers)
    for k, v in kw.items():
        setattr(pol, k, v)
    return absint.Interp(prog, pol)


def fn_of(prog, suffix, pred=None):
    c = [f for f in prog.find(suffix) if f.kind in ("fn", "method")]
    if pred:
        c = [f for f in c if pred(f)]
    return c[0] if len(c) == 1 else None


def build(I, prog, fid, args):
    """value of a constructor-like function applied to abstract arguments (single outcome)"""
    f = prog.fns.get(fid)
    if f is None:
        return None
    outs = I.exec_fn(f, tuple(args), (), {}, (), ())
    vals = {o[0] for o in outs}
    return vals.pop() if len(vals) == 1 else None


def fields(prog, v):
    """dict of the fields of a struct value"""
    a = prog.adts.get(v[1]) if v[0] == "a" else None
    if not a:
        return {}
    for var in a["v"]:
        if var["n"] == v[2] or len(a["v"]) == 1:
            return {f[0]: v[3][i] for i, f in enumerate(var["f"]) if i < len(v[3])}
    return {}


class Atom:
    """finite-valued observation; get(G) = set of the values consistent with the facts of an outcome"""

    def __init__(self, name, dom, get):
        self.name, self.dom, self.get = name, tuple(dom), get


def bool_atom(I, name, y):
    return Atom(name, (True, False), lambda G: {G[("b", y)]} if ("b", y) in G else {True, False})


def var_atom(I, prog, name, y, adt, dom=None):
    vs = dom or [x["n"] for x in prog.variants(adt)]
    return Atom(name, vs, lambda G: set(G.get(("d", y), vs)) & set(vs))


def ord_atom(I, name, a, b, dom="LEG"):
    """ordering of a relative to b"""
    def get(G):
        st = State({}, G)
        return set(I.ord_set(a, b, st, "N" in dom)) & set(dom)
    return Atom(name, dom, get)


def decide(outs, atoms, spec, verdict, same=None):
    """-> list of (assignment, expected, got) mismatches, number of rows. outs: [(ret, cells, G)]"""
    bad, rows = [], 0
    cons = [[a.get(G) for a in atoms] for _, _, G in outs]
    for combo in itertools.product(*[a.dom for a in atoms]):
        asg = {a.name: v for a, v in zip(atoms, combo)}
        want = spec(asg)
        if want is None:
            continue            # row excluded (impossible)
        rows += 1
        got = set()
        for i, o in enumerate(outs):
            if all(v in c for v, c in zip(combo, cons[i])):
                got.add(verdict(o))
        if got != {want} and not (same and got and all(same(want, g) for g in got)):
            bad.append((asg, want, got))
    return bad, rows


def show_asg(asg):
    return ", ".join("%s=%s" % kv for kv in asg.items())


def ty_adts(prog, crate, t, seen=None):
    """the ADTs mentioned in a type, outermost first"""
    if t is None:
        return
    if t.get("adt"):
        yield t["adt"]
    for i in t.get("a") or ():
        yield from ty_adts(prog, crate, prog.types[crate][i])


def field_adt(prog, adt, variant, i=0, short=None):
    """the (innermost, or the one with that last name) ADT of a field's type"""
    a = prog.adts.get(adt)
    for v in (a["v"] if a else ()):
        if v["n"] == variant or len(a["v"]) == 1:
            if i < len(v["f"]):
                c = [x for x in ty_adts(prog, a["crate"], prog.ty(a["crate"], v["f"][i][1])) if not x.startswith(("alloc::alloc", "alloc::string"))]
                c = [x for x in c if short is None or x.rsplit("::", 1)[-1] == short]
                return c[-1] if c else None
    return None


def ident(I, site, name, callee, args, st):
    return [(I.deref(args[0], st), st)]


IRIS = [(r"IriS::(new_unchecked|named_node|as_str)$|NamedNode::(new_unchecked|as_str|into_string)$|NamedNodeRef(<.*>)?::(new_unchecked|as_str)$", ident)]
