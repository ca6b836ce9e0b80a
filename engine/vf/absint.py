"""Path-sensitive abstract interpreter over the facts (MIR).

Domain: constants (bool/int/str), ADTs with known variant, exact short lists / abstract sequences, closures,
pointers for `&mut` borrows (shared borrows are value snapshots), and opaque names `('y', id)` for everything
that is not known statically. The abstract state carries facts about opaque names: which variants an enum-like
name may have, the truth of an opaque bool, the possible orderings of two opaque operands (finite lattices).
A switch on an opaque name splits the state (trace partitioning on those finite facts) and refines the facts.
Loops run to a fixpoint over the finite state space; growth is cut by widening (ints > 8, lists > 4 -> abstract).
Nothing is executed and no path condition is handed to a solver: a fact is a set of variants/orderings.
"""
import math
import re
import struct
import sys
sys.setrecursionlimit(20000)

T = ("T",)
UNIT = ("t", ())
TRUE, FALSE = ("b", True), ("b", False)
OPT, RES, CF, POLL = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow", "core::task::poll::Poll"
NONE = ("a", OPT, "None", ())


def Some(v): return ("a", OPT, "Some", (v,))
def Ok(v): return ("a", RES, "Ok", (v,))
def Err(v): return ("a", RES, "Err", (v,))


ORDVAR = {"Less": "L", "Equal": "E", "Greater": "G"}
ORDNAME = {"L": "Less", "E": "Equal", "G": "Greater"}
ORDERING = "core::cmp::Ordering"


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "G")

    def __init__(self, env, G):
        self.env = env
        self.G = G

    def fork(self):
        return State(dict(self.env), dict(self.G))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.G.items()))


def has_ptr(v):
    k = v[0]
    if k == "p":
        return True
    if k in ("a",):
        return any(has_ptr(x) for x in v[3])
    if k in ("t", "L"):
        return any(has_ptr(x) for x in v[1])
    if k == "c":
        return any(has_ptr(x) for x in v[2])
    if k == "V":
        return any(has_ptr(x) for x in v[2])
    if k == "it":
        return has_ptr(v[1])
    if k == "u":
        return has_ptr(v[1]) or any(has_ptr(x) for _, x in v[2])
    if k == "h":
        return False
    return False


def map_ptr(v, f):
    k = v[0]
    if k == "p":
        return f(v)
    if k == "a":
        return ("a", v[1], v[2], tuple(map_ptr(x, f) for x in v[3]))
    if k in ("t", "L"):
        return (k, tuple(map_ptr(x, f) for x in v[1]))
    if k == "c":
        return ("c", v[1], tuple(map_ptr(x, f) for x in v[2])) + v[3:]
    if k == "V":
        return ("V", v[1], frozenset(map_ptr(x, f) for x in v[2]))
    if k == "it":
        return ("it", map_ptr(v[1], f)) + v[2:]
    if k == "u":
        return ("u", map_ptr(v[1], f), tuple((n, map_ptr(x, f)) for n, x in v[2]))
    return v


def collect_ptrs(v, out):
    k = v[0]
    if k == "p":
        out.append(v[1])
    elif k == "a":
        for x in v[3]:
            collect_ptrs(x, out)
    elif k in ("t", "L"):
        for x in v[1]:
            collect_ptrs(x, out)
    elif k in ("c", "V"):
        for x in v[2]:
            collect_ptrs(x, out)
    elif k == "it":
        collect_ptrs(v[1], out)
    elif k == "u":
        collect_ptrs(v[1], out)
        for _, x in v[2]:
            collect_ptrs(x, out)


class Policy:
    distinct = None
    """Rule-specific configuration of the analysis."""
    max_depth = 10
    exact = False           # sets and maps with named elements are kept exact (split on equality)
    budget = 60000          # abstract states per top-level run
    per_fn = 6000
    coarse = None           # f(I, v): abstraction of the elements of growing sequences (None: keep them)
    seq_cap = 8             # sequences growing in a loop beyond this length are widened
    int_cap = 8             # counters beyond this are not tracked
    widen_at = 0            # number of states per block after which values are widened

    def precious(self, I, v):
        return False
    forget = False          # drop facts about names no live value mentions

    def on_call(self, I, site, name, callee, args, st):
        """None, or a list of (value, State) outcomes for this call."""
        return None

    def inline(self, fn):
        return True

    def on_next(self, I, it, outcome, st):
        """hook on iteration of an abstract iterator; outcome 'some' or 'none'"""

    def keep(self, I, key, val):
        """keep this fact when the function that established it returns, although no live value mentions it"""
        return False

    def on_switch(self, I, fn, bi, v, st):
        pass

    def on_panic(self, I, fn, bi, st):
        pass

    def must_visit(self, I, x):
        """this element of an abstract sequence is certainly there: an exhausted iteration has seen it"""
        return False

    def on_purge(self, I, key, st):
        """a fact about a name that is about to be rebound is forgotten"""


class Site:
    __slots__ = ("fn", "bb", "line", "ctx", "callee", "dest_ty", "gtypes")

    def __init__(self, fn, bb, line, ctx):
        self.fn, self.bb, self.line, self.ctx = fn, bb, line, ctx

    def key(self):
        return (self.ctx, self.fn.id, self.bb)


class Interp:
    def __init__(self, prog, policy=None):
        self.prog = prog
        self.pol = policy or Policy()
        self.symtab = {}
        self.syms = []
        self.memo = {}
        self.steps = 0
        self.inlined = set()
        self.opaque_calls = {}
        self.active = []
        self._live = {}
        self.on_drop = None     # called with the value a scope end drops
        self.widened = 0
        self.recursion_cut = set()
        self._names = {}

    # ---- names
    def sym(self, *tag):
        i = self.symtab.get(tag)
        if i is None:
            i = len(self.syms)
            self.symtab[tag] = i
            self.syms.append(tag)
        return ("y", i)

    def tag(self, v):
        return self.syms[v[1]] if v[0] == "y" else None

    def show(self, v, d=0):
        k = v[0]
        if d > 8:
            return "…"
        if k == "y":
            t = self.syms[v[1]]
            return self.showtag(t, d + 1)
        if k == "a":
            n = v[2] or v[1].rsplit("::", 1)[-1]
            return n + ("(" + ", ".join(self.show(x, d + 1) for x in v[3]) + ")" if v[3] else "")
        if k == "t":
            return "(" + ", ".join(self.show(x, d + 1) for x in v[1]) + ")"
        if k == "L":
            return "[" + ", ".join(self.show(x, d + 1) for x in v[1]) + "]"
        if k == "V":
            return "seq%s{%s}" % (v[1], ", ".join(sorted(self.show(x, d + 1) for x in v[2])))
        if k == "s":
            return repr(v[1])
        if k in ("b", "i", "ch", "fl"):
            return str(v[1])
        if k == "c":
            return "closure<%s>" % v[1]
        if k == "f":
            return "fn<%s>" % v[1]
        if k == "p":
            return "&mut#%s%s" % (v[1], "".join(str(x) for x in v[2]))
        if k == "it":
            return "iter(%s)" % self.show(v[1], d + 1)
        if k == "u":
            return "%s{%s}" % (self.show(v[1], d + 1), ", ".join("%s:=%s" % (n, self.show(x, d + 1)) for n, x in v[2]))
        return str(v)

    def showtag(self, t, d=0):
        def s(x):
            if isinstance(x, tuple) and x and x[0] in ("y", "a", "t", "s", "b", "i", "L", "V", "c", "f", "T", "p", "it", "ch", "fl", "u", "h"):
                return self.show(x, d)
            return str(x)
        if t[0] == "." and len(t) == 3:
            return "%s.%s" % (s(t[1]), t[2])
        if t[0] == "call":
            return "%s(%s)" % (t[1].rsplit("::", 1)[-1], ", ".join(s(x) for x in t[2]))
        if t[0] == "r":
            return "%s#%s" % (t[1].rsplit("::", 1)[-1], t[2])
        if t[0] == "in":
            return str(t[1])
        return "%s(%s)" % (t[0], ", ".join(s(x) for x in t[1:]))

    def mentions(self, v, pred, seen=None):
        """does the value (transitively through tags) contain a sub-value satisfying pred?"""
        if seen is None:
            seen = set()
        if pred(v):
            return True
        k = v[0]
        if k == "y":
            if v[1] in seen:
                return False
            seen.add(v[1])
            return self._tag_mentions(self.syms[v[1]], pred, seen)
        if k == "a":
            return any(self.mentions(x, pred, seen) for x in v[3])
        if k in ("t", "L"):
            return any(self.mentions(x, pred, seen) for x in v[1])
        if k in ("c", "V"):
            return any(self.mentions(x, pred, seen) for x in v[2])
        if k == "it":
            return self.mentions(v[1], pred, seen)
        if k == "u":
            return self.mentions(v[1], pred, seen) or any(self.mentions(x, pred, seen) for _, x in v[2])
        return False

    def _tag_mentions(self, t, pred, seen):
        for x in t:
            if isinstance(x, tuple):
                if x and x[0] in ("y", "a", "t", "L", "c", "V", "it", "u", "s", "f"):
                    if self.mentions(x, pred, seen):
                        return True
                elif self._tag_mentions(x, pred, seen):
                    return True
        return False

    # ---- reading and writing
    def deref(self, v, st):
        n = 0
        while v[0] == "p":
            v = self.read_cell(v[1], v[2], st)
            n += 1
            if n > 20:
                return T
        return v

    def read_cell(self, cell, proj, st):
        v = st.env.get(cell, T)
        for e in proj:
            v = self.proj(v, e, st)
        return v

    def proj(self, v, e, st):
        if e == "*":
            return self.deref(v, st) if v[0] == "p" else v
        if v[0] == "p" and e[0] != "*":
            v = self.deref(v, st)
        k = v[0]
        op = e[0]
        if op == "f":
            i, name = e[1], e[2]
            if k == "a":
                return v[3][i] if i < len(v[3]) else T
            if k == "t":
                return v[1][i] if i < len(v[1]) else T
            if k == "c":
                return v[2][i] if i < len(v[2]) else T
            if k == "y":
                return self.sym(".", v, name or str(i))
            if k == "u":
                for n, x in v[2]:
                    if n == (name or str(i)):
                        return x
                return self.proj(v[1], e, st)
            return T
        if op == "v":
            if k == "y":
                return self.sym("@", v, e[2])
            return v
        if op == "i":
            iv = st.env.get(e[1], T)
            return self.index(v, iv)
        if op == "c":
            if k == "L":
                n = len(v[1])
                i = n - e[1] if e[2] else e[1]
                if 0 <= i < n:
                    return v[1][i]
                return T
            if k == "V":
                return self.join_all(v[2])
            if k == "y":
                return self.sym(".", v, "%s%d" % ("-" if e[2] else "#", e[1]))
            return T
        if op == "s":
            if k == "L":
                lo, hi, fe = e[1], e[2], e[3]
                return ("L", v[1][lo:(len(v[1]) - hi) if fe else hi])
            if k == "V":
                return ("V", "?", v[2])
            if k == "y":
                return self.sym("slice", v, e[1], e[2], e[3])
            return T
        return T

    def index(self, v, iv):
        if v[0] == "L":
            if iv[0] == "i" and 0 <= iv[1] < len(v[1]):
                return v[1][iv[1]]
            return self.join_all(v[1])
        if v[0] == "V":
            return self.join_all(v[2])
        if v[0] == "y":
            return self.sym("elem", v)
        return T

    def join_all(self, vs):
        vs = set(vs)
        if len(vs) == 1:
            return next(iter(vs))
        return T

    def resolve_place(self, pl, st):
        """(cell, proj) after following pointers; proj without '*' through pointers"""
        cell, proj = pl[0], []
        for e in pl[1:]:
            if e == "*":
                v = self.read_cell(cell, proj, st)
                if v[0] == "p":
                    cell, proj = v[1], list(v[2])
                # transparent otherwise
            else:
                if e[0] == "i":
                    iv = st.env.get(e[1], T)
                    proj.append(("c", iv[1], 0) if iv[0] == "i" else ("i", -10**6))
                else:
                    v = self.read_cell(cell, proj, st)
                    if v[0] == "p":
                        cell, proj = v[1], list(v[2])
                    proj.append(tuple(e))
        return cell, tuple(proj)

    def read(self, pl, st):
        v = st.env.get(pl[0], T)
        for e in pl[1:]:
            v = self.proj(v, e, st)
        return v

    def write(self, pl, val, st):
        if len(pl) == 1:
            st.env[pl[0]] = val
            return
        cell, proj = self.resolve_place(pl, st)
        self.write_cell(cell, proj, val, st)

    def write_cell(self, cell, proj, val, st):
        old = st.env.get(cell, T)
        st.env[cell] = self.upd(old, proj, val)

    def upd(self, v, proj, val):
        if not proj:
            return val
        e, rest = proj[0], proj[1:]
        k = v[0]
        if e[0] == "v":
            if k == "y":
                # writing into a variant of an opaque enum
                return T
            return self.upd(v, rest, val)
        if e[0] == "f":
            i = e[1]
            if k == "a" and i < len(v[3]):
                f = list(v[3])
                f[i] = self.upd(f[i], rest, val)
                return ("a", v[1], v[2], tuple(f))
            if k == "t" and i < len(v[1]):
                f = list(v[1])
                f[i] = self.upd(f[i], rest, val)
                return ("t", tuple(f))
            if k == "c" and i < len(v[2]):
                f = list(v[2])
                f[i] = self.upd(f[i], rest, val)
                return ("c", v[1], tuple(f)) + v[3:]
            if k in ("y", "u"):
                base, ov = (v, ()) if k == "y" else (v[1], v[2])
                name = e[2] or str(i)
                d = dict(ov)
                cur = d.get(name)
                if cur is None:
                    cur = self.proj(base, e, State({}, {}))
                d[name] = self.upd(cur, rest, val)
                return ("u", base, tuple(sorted(d.items())))
            return T
        if e[0] == "c" and k == "L" and not e[2] and e[1] < len(v[1]):
            f = list(v[1])
            f[e[1]] = self.upd(f[e[1]], rest, val)
            return ("L", tuple(f))
        if e[0] in ("c", "i"):
            if k in ("L", "V"):
                el = set(v[1] if k == "L" else v[2])
                el |= {self.upd(x, rest, val) for x in list(el)} if rest else {val}
                return self.mkV("+", el)
            if k == "y" or k == "u":
                return self.sym("mut", v if k == "y" else v[1])
        return T

    def mkV(self, e, elems):
        elems = frozenset(elems)
        if len(elems) > 6:
            elems = frozenset([T])
        return ("V", e, elems)

    # ---- facts
    def variants(self, adt):
        vs = self.prog.variants(adt)
        return [x["n"] for x in vs] if vs else []

    def disc_set(self, y, adt, G):
        k = ("d", y)
        s = G.get(k)
        if s is None:
            return frozenset(self.variants(adt))
        return s

    def known_variant(self, v, adt, st):
        """set of possible variants of v"""
        v = self.deref(v, st)
        if v[0] == "a":
            return frozenset([v[2]])
        if v[0] == "y":
            return self.disc_set(v, adt, st.G)
        return frozenset(self.variants(adt))

    ORDS = frozenset("LEG")

    def cast(self, kind, v, t):
        """numeric conversions of concrete values"""
        x = v[1] if v[0] in ("i", "b") else ord(v[1]) if v[0] == "ch" else None
        if kind == "IntToInt":
            m = re.match(r"^([iu])(\d+|size)$", t["s"])
            if m:
                n = 64 if m.group(2) == "size" else int(m.group(2))
                x = int(x) & ((1 << n) - 1)
                return ("i", x - (1 << n) if m.group(1) == "i" and x >> (n - 1) else x)
            if t["s"] == "char":
                return ("ch", chr(x))
            return v
        if kind in ("IntToFloat", "FloatToFloat") and v[0] in ("i", "fl"):
            x = float(v[1])
            if t["s"] == "f32" and x - x == 0:
                try:
                    x = struct.unpack("f", struct.pack("f", x))[0]
                except OverflowError:
                    x = math.copysign(math.inf, x)
            return ("fl", repr(x))
        if kind == "FloatToInt":
            return T
        return v

    def ord_set(self, a, b, st, partial=False):
        if a[0] == "fl" and b[0] == "fl":
            x, y = float(a[1]), float(b[1])
            return frozenset("N" if x != x or y != y else "E" if x == y else "L" if x < y else "G")
        if a[0] in ("i", "b", "s", "ch") and a[0] == b[0]:
            return frozenset("E" if a[1] == b[1] else ("L" if a[1] < b[1] else "G"))
        if a == b and a[0] != "T":
            return frozenset("E")
        fl = self._okey(a, b)
        s = st.G.get(fl[0])
        if s is None:
            s = frozenset("LEGN") if partial else self.ORDS
            # x == const1 already known, compared to another const
            for x, c in ((a, b), (b, a)):
                if c[0] in ("s", "i", "ch") and x[0] == "y":
                    e = st.G.get(("eq", x))
                    if e is not None:
                        if e[0] == c[0]:
                            o = "E" if e[1] == c[1] else ("L" if e[1] < c[1] else "G")
                            if x is b:
                                o = {"L": "G", "G": "L"}.get(o, o)
                            return frozenset(o)
                    if c[0] == "i" and c[1] == 0 and self.tag(x)[0] == "len":
                        s = frozenset("GE") if x is a else frozenset("LE")
            return s
        return self._flip(s) if fl[1] else s

    def _flip(self, s):
        return frozenset({"L": "G", "G": "L"}.get(x, x) for x in s)

    def _okey(self, a, b):
        if repr(a) <= repr(b):
            return ("o", a, b), False
        return ("o", b, a), True

    def set_ord(self, a, b, s, st):
        if a[0] != "y" and b[0] != "y":
            return
        k, f = self._okey(a, b)
        st.G[k] = self._flip(s) if f else s
        if s == frozenset("E"):
            for x, c in ((a, b), (b, a)):
                if x[0] == "y" and c[0] in ("s", "i", "ch"):
                    st.G[("eq", x)] = c

    OPS = {"Eq": "E", "Ne": "LGN", "Lt": "L", "Le": "LE", "Gt": "G", "Ge": "GE"}

    def compare(self, op, a, b, st, partial=False):
        """abstract value of `a op b`"""
        a, b = self.deref(a, st), self.deref(b, st)
        if a[0] == "T" or b[0] == "T":
            return T
        # discriminant comparison
        for x, c in ((a, b), (b, a)):
            if x[0] == "y" and c[0] == "i" and op in ("Eq", "Ne"):
                t = self.tag(x)
                if t[0] == "disc":
                    vs = self.prog.variants(t[2])
                    names = {v["d"]: v["n"] for v in vs}
                    n = names.get(c[1])
                    return self.sym("isvar", t[1], t[2], n, op == "Eq")
        if a[0] == "y" and b[0] == "y" and op in ("Eq", "Ne"):
            ta, tb = self.tag(a), self.tag(b)
            if ta[0] == "disc" and tb[0] == "disc":
                a, b = ta[1], tb[1]
                sa, sb = self.disc_set(a, ta[2], st.G), self.disc_set(b, tb[2], st.G)
                if not (sa & sb):
                    return ("b", op == "Ne")
                if len(sa) == 1 and sa == sb:
                    return ("b", op == "Eq")
                return self.sym("samevar", a, b, ta[2], op == "Eq")
        s = self.ord_set(a, b, st, partial)
        ok = frozenset(self.OPS[op])
        if s <= ok:
            return TRUE
        if not (s & ok):
            return FALSE
        if a[0] not in ("y", "s", "i", "ch", "b", "a", "fl", "f", "t") or b[0] not in ("y", "s", "i", "ch", "b", "a", "fl", "f", "t"):
            return T
        if has_ptr(a) or has_ptr(b):
            return T
        return self.sym("cmp", op, a, b, partial)

    def split_bool(self, v, st):
        """[(bool, State)] for an abstract boolean"""
        v = self.deref(v, st)
        if v[0] == "b":
            return [(v[1], st)]
        if v[0] == "i":
            return [(bool(v[1]), st)]
        if v[0] == "y":
            t = self.tag(v)
            if t[0] == "not":
                return [(not b, s) for b, s in self.split_bool(t[1], st)]
            if t[0] == "cmp":
                op, a, b, partial = t[1:5]
                s = self.ord_set(a, b, st, partial)
                out = []
                ok = frozenset(self.OPS[op])
                for val, sub in ((True, s & ok), (False, s - ok)):
                    if sub:
                        n = st.fork()
                        self.set_ord(a, b, sub, n)
                        out.append((val, n))
                return out
            if t[0] == "isvar":
                y, adt, name, pos = t[1:5]
                s = self.disc_set(y, adt, st.G)
                out = []
                for val, sub in ((pos, s & {name}), (not pos, s - {name})):
                    if sub:
                        n = st.fork()
                        n.G[("d", y)] = frozenset(sub)
                        out.append((val, n))
                return out
            k = ("b", v)
            if k in st.G:
                return [(st.G[k], st)]
            out = []
            for val in (True, False):
                n = st.fork()
                n.G[k] = val
                out.append((val, n))
            return out
        return [(True, st.fork()), (False, st.fork())]

    def split_variant(self, v, adt, st):
        """[(variant name, value, State)]"""
        v = self.deref(v, st)
        if v[0] == "a":
            return [(v[2], v, st)]
        if v[0] == "y":
            out = []
            for n in sorted(self.disc_set(v, adt, st.G)):
                s = st.fork()
                s.G[("d", v)] = frozenset([n])
                out.append((n, v, s))
            return out
        return [(n, T, st.fork()) for n in self.variants(adt)]

    def payload(self, v, variant, i=0, name="0"):
        if v[0] == "a":
            return v[3][i] if i < len(v[3]) else T
        if v[0] == "y":
            return self.sym(".", self.sym("@", v, variant), name)
        return T

    def purge(self, st, y):
        """forget facts about names built from y (a loop element that is rebound)"""
        bad = []
        for k in st.G:
            if isinstance(k, tuple) and k[0] in ("d", "b", "o", "i", "eq"):
                for x in k[1:]:
                    if self.mentions(x, lambda q: q == y):
                        bad.append(k)
                        break
        for k in bad:
            self.pol.on_purge(self, k, st)
            del st.G[k]

    # ---- constants and operands
    def const(self, fn, c, st, fr):
        if "fn" in c:
            d = c["fn"]
            return ("f", d["p"], d.get("r"), fn.crate, tuple((fn.crate, x) for x in d.get("g", ())), d.get("tr"), d.get("res", 0))
        if "b" in c:
            return ("b", c["b"])
        if "i" in c:
            return ("i", c["i"])
        if "str" in c:
            return ("s", c["str"])
        if "bytes" in c:
            return ("s", c["bytes"])
        if "c" in c:
            return ("ch", c["c"])
        if "fl" in c:
            return ("fl", repr(float(c["fl"])))
        t = fn.ty(c["t"])
        if "var" in c and t.get("k") == "adt":
            return ("a", t["adt"], c["var"], ())
        if "prom" in c:
            host = fn.promof or fn
            p = host.prom(c["prom"])
            key = ("prom", host.id, c["prom"])
            if key not in self.memo:
                self.memo[key] = T
                outs = self.exec_fn(p, (), (), {}, (), ())
                self.memo[key] = outs[0][0] if len(outs) == 1 else T
                self.memo[key] = self._noptr(self.memo[key])
            return self.memo[key]
        if "item" in c:
            cf = self.prog.fns.get(c["item"])
            if cf is not None and cf.kind == "const":
                key = ("citem", c["item"])
                if key not in self.memo:
                    self.memo[key] = T
                    outs = self.exec_fn(cf, (), (), {}, (), ())
                    self.memo[key] = self._noptr(outs[0][0]) if len(outs) == 1 else T
                v = self.memo[key]
                if v[0] != "T":
                    return v
            return self.sym("const", c["item"])
        if "static" in c:
            return self.sym("static", c["static"])
        if t.get("k") == "tuple" and not t.get("a"):
            return UNIT
        if t.get("k") == "adt":
            a = self.prog.adts.get(t["adt"])
            if a and a["k"] == "struct" and not a["v"][0]["f"]:
                return ("a", t["adt"], "", ())
        if t.get("k") == "closure":
            return ("c", t["def"], ())
        if t.get("k") == "fndef":
            return ("f", t["def"], None, fn.crate, (), None, 1)
        if "strs" in c:
            return ("L", tuple(("s", x) for x in c["strs"]))
        return T

    def _noptr(self, v):
        return map_ptr(v, lambda p: T)

    def operand(self, fn, op, st, fr):
        if op[0] == "k":
            return self.const(fn, op[1], st, fr)
        if op[0] in ("c", "m"):
            v = self.read(op[1], st)
            if op[0] == "m" and len(op[1]) == 1 and op[1][0] not in fr.borrowed:
                st.env.pop(op[1][0], None)
            return v
        return T

    def rvalue(self, fn, rv, st, fr, pl, si):
        k = rv[0]
        if k == "use":
            return self.operand(fn, rv[1], st, fr)
        if k == "ref":
            if rv[1]:
                # mutable borrow
                cell, proj = self.resolve_place(rv[2], st)
                if cell >= 0 and cell == rv[2][0] and "*" in rv[2][1:]:
                    fr.borrowed.add(cell)       # a reference modelled as the value itself: the local stands for the referent
                return ("p", cell, proj)
            v = self.read(rv[2], st)
            return self.deref(v, st) if v[0] == "p" else v
        if k == "cast":
            v = self.operand(fn, rv[2], st, fr)
            return v if v[0] not in ("i", "b", "ch", "fl") else self.cast(rv[1], v, fn.ty(rv[3]))
        if k == "disc":
            v = self.deref(self.read(rv[1], st), st)
            t = fn.ty(rv[2])
            adt = t.get("adt")
            if v[0] == "a":
                for x in self.prog.variants(v[1]) or []:
                    if x["n"] == v[2]:
                        return ("i", x["d"])
                return T
            if v[0] == "y" and adt:
                s = self.disc_set(v, adt, st.G)
                if len(s) == 1:
                    n = next(iter(s))
                    for x in self.prog.variants(adt) or []:
                        if x["n"] == n:
                            return ("i", x["d"])
                return self.sym("disc", v, adt)
            if v[0] == "T" and adt:
                # name the unknown so that the branch can refine it
                y = self.sym("fresh", fn.id, fr.ctx, tuple(map(str, rv[1])), si)
                self.purge(st, y)
                cell, proj = self.resolve_place(rv[1], st)
                self.write_cell(cell, proj, y, st)
                return self.sym("disc", y, adt)
            return T
        if k == "agg":
            ops = [self.operand(fn, o, st, fr) for o in rv[2]]
            a = rv[1]
            if a[0] == "adt":
                ad = self.prog.adts.get(a[1])
                isenum = ad and ad["k"] == "enum"
                return ("a", a[1], a[2] if isenum else "", tuple(ops))
            if a[0] == "tuple":
                return ("t", tuple(ops))
            if a[0] == "array":
                return ("L", tuple(ops)) if len(ops) <= 64 else self.mkV("+", ops)
            if a[0] == "closure":
                return ("c", a[1], tuple(ops))
            if a[0] == "coroutine":
                return ("c", a[1], tuple(ops), "co")
            return T
        if k == "bin":
            a = self.deref(self.operand(fn, rv[2], st, fr), st)
            b = self.deref(self.operand(fn, rv[3], st, fr), st)
            v = self.binop(rv[1], a, b, st)
            if rv[1] == "SubWithOverflow" and v[0] == "t" and v[1][0][0] == "i" and v[1][0][1] < 0 and fn.local_ty(pl[0])["s"].startswith("(u"):
                return ("t", (v[1][0], TRUE))
            return v
        if k == "un":
            a = self.deref(self.operand(fn, rv[2], st, fr), st)
            if rv[1] == "Not":
                if a[0] == "b":
                    return ("b", not a[1])
                if a[0] == "y":
                    t = self.tag(a)
                    if t[0] == "not":
                        return t[1]
                    return self.sym("not", a)
                return T
            if rv[1] == "Neg":
                if a[0] == "i":
                    return ("i", -a[1])
                if a[0] == "y":
                    return self.sym("neg", a)
            if rv[1] == "PtrMetadata":
                return self.len_of(a, st)
            return T
        if k == "rep":
            return self.mkV("?", [self.operand(fn, rv[1], st, fr)])
        return T

    def len_of(self, v, st):
        v = self.deref(v, st)
        if v[0] == "L":
            return ("i", len(v[1]))
        if v[0] == "s":
            return ("i", len(v[1].encode()))
        if v[0] == "V":
            return self.sym("len", v) if not has_ptr(v) else T
        if v[0] == "y":
            return self.sym("len", v)
        return T

    ARITH = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b}

    def binop(self, op, a, b, st):
        if op in self.OPS:
            return self.compare(op, a, b, st)
        if op == "Cmp":
            return self.cmp_value(a, b, st)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = T
        if base in self.ARITH:
            if a[0] == "i" and b[0] == "i":
                n = self.ARITH[base](a[1], b[1])
                if abs(n) > self.pol.int_cap and abs(n) > max(abs(a[1]), abs(b[1])):
                    self.widened += 1
                    r = T
                else:
                    r = ("i", n)
            elif a[0] in ("y", "i") and b[0] in ("y", "i"):
                # opaque + constant: keep a name only if it does not grow
                deep = any(x[0] == "y" and self.tag(x)[0] == "arith" for x in (a, b))
                r = T if deep else self.sym("arith", base, a, b)
        elif base in ("BitAnd", "BitOr", "BitXor"):
            if a[0] == "b" and b[0] == "b":
                r = ("b", {"BitAnd": a[1] and b[1], "BitOr": a[1] or b[1], "BitXor": a[1] != b[1]}[base])
            elif base == "BitAnd" and FALSE in (a, b):
                r = FALSE
            elif base == "BitOr" and TRUE in (a, b):
                r = TRUE
            elif base in ("BitAnd", "BitOr") and TRUE in (a, b) or FALSE in (a, b):
                r = a if b[0] == "b" else b
            elif a[0] in ("y", "b") and b[0] in ("y", "b"):
                r = self.sym("bit", base, a, b)
        elif base in ("Div", "Rem") and a[0] == b[0] == "i" and a[1] >= 0 and b[1] > 0:
            r = ("i", a[1] // b[1] if base == "Div" else a[1] % b[1])
        elif base in ("Div", "Rem") and a[0] in ("y", "i") and b[0] in ("y", "i"):
            r = self.sym("arith", base, a, b)
        if op.endswith("WithOverflow"):
            return ("t", (r, FALSE))
        return r

    def cmp_value(self, a, b, st):
        s = self.ord_set(a, b, st)
        if len(s) == 1:
            return ("a", ORDERING, ORDNAME[next(iter(s))], ())
        if has_ptr(a) or has_ptr(b) or a[0] == "T" or b[0] == "T":
            return T
        return self.sym("ordering", a, b)

    # ---- function execution
    def liveness(self, fn):
        key = (fn.id,)
        r = self._live.get(key)
        if r is not None:
            return r
        nb = len(fn.bb)
        borrowed = set()
        use = [set() for _ in range(nb)]
        dfs = [set() for _ in range(nb)]
        succ = [[] for _ in range(nb)]

        def usepl(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for e in pl[1:]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def useop(op, u, d):
            if op[0] in ("c", "m"):
                usepl(op[1], u, d)

        def defpl(pl, u, d):
            if len(pl) == 1:
                d.add(pl[0])
            else:
                usepl(pl, u, d)

        for i, b in enumerate(fn.bb):
            if b["cu"]:
                continue
            u, d = use[i], dfs[i]
            for s in b["s"]:
                if s[0] == "dead":
                    continue
                rv = s[1]
                k = rv[0]
                if k in ("use", "rep"):
                    useop(rv[1], u, d)
                elif k == "ref":
                    if rv[1] and "*" not in rv[2][1:]:
                        borrowed.add(rv[2][0])
                    usepl(rv[2], u, d)
                elif k == "cast":
                    useop(rv[2], u, d)
                elif k == "disc":
                    usepl(rv[1], u, d)
                elif k == "agg":
                    for o in rv[2]:
                        useop(o, u, d)
                elif k == "bin":
                    useop(rv[2], u, d)
                    useop(rv[3], u, d)
                elif k == "un":
                    useop(rv[2], u, d)
                defpl(s[0], u, d)
            t = b["t"]
            if t[0] == "call":
                useop(t[1], u, d)
                for a in t[2]:
                    useop(a, u, d)
                defpl(t[3], u, d)
                if t[4] is not None:
                    succ[i].append(t[4])
            elif t[0] == "switch":
                useop(t[1], u, d)
                succ[i] += [x[1] for x in t[3]] + [t[4]]
            elif t[0] == "goto":
                succ[i].append(t[1])
            elif t[0] == "drop":
                if self.on_drop:
                    usepl(t[1], u, d)
                succ[i].append(t[2])
            elif t[0] == "assert":
                useop(t[1], u, d)
                succ[i].append(t[3])
            elif t[0] == "yield":
                useop(t[1], u, d)
                succ[i].append(t[2])
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for i in range(nb - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                n = use[i] | (o - dfs[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        r = (live, borrowed)
        self._live[key] = r
        return r

    def exec_fn(self, fn, args, cells, G, ctx, sub):
        """-> list of (ret, cells, G-dict)"""
        key = (fn.id, args, cells, frozenset(G.items()), ctx, sub)
        r = self.memo.get(key)
        if r is not None:
            return r
        if (fn.id, ctx) in self.active or len(self.active) > 60:
            return None
        self.active.append((fn.id, ctx))
        try:
            r = self._exec(fn, args, cells, G, ctx, sub)
        finally:
            self.active.pop()
        self.memo[key] = r
        return r

    def _exec(self, fn, args, cells, G, ctx, sub):
        live, borrowed = self.liveness(fn)
        fr = Frame(fn, ctx, sub, borrowed)
        env = {}
        for i, a in enumerate(args):
            env[i + 1] = a
        for i, c in enumerate(cells):
            env[-1 - i] = c
        st0 = State(env, dict(G))
        work = [(0, st0)]
        seen = {}
        outs = []
        outk = set()
        nst = 0
        perbb = {}
        while work:
            bi, st = work.pop()
            # drop dead locals
            lv = live[bi]
            e = {k: v for k, v in st.env.items() if k < 0 or k in lv or k in borrowed}
            st = State(e, st.G)
            if self.pol.forget:
                self.forget(st, G)
            if self.pol.widen_at and perbb.get(bi, 0) > self.pol.widen_at:
                self.widen(fn, bi, st, G)
            k = st.key()
            sset = seen.setdefault(bi, set())
            if k in sset:
                continue
            sset.add(k)
            nst += 1
            self.steps += 1
            c = perbb.get(bi, 0) + 1
            perbb[bi] = c
            if self.steps > self.pol.budget or nst > self.pol.per_fn:
                raise Budget("%s: %d states" % (fn.id, nst))
            for kind, x, s in self.block(fn, bi, st, fr):
                if kind == "go":
                    work.append((x, s))
                elif kind == "ret":
                    ret = s.env.get(0, UNIT if fn.ret_ty().get("k") == "tuple" and not fn.ret_ty().get("a") else T)

                    def esc(p):
                        return p if p[1] < 0 else T
                    if ret[0] == "p" and ret[1] >= 0:
                        ret = self.deref(ret, s)
                    ret = map_ptr(ret, lambda p: p if p[1] < 0 else self._noptr(self.deref(p, s)))
                    oc = tuple(map_ptr(s.env.get(-1 - i, T), esc) for i in range(len(cells)))
                    ok = (ret, oc, frozenset(s.G.items()))
                    if ok not in outk:
                        outk.add(ok)
                        outs.append((ret, oc, s.G))
        return outs

    def block(self, fn, bi, st, fr):
        b = fn.bb[bi]
        st = st.fork()
        for si, s in enumerate(b["s"]):
            if s[0] == "dead":
                st.env.pop(s[1], None)
                continue
            rv = s[1]
            if rv[0] == "setd":
                continue
            v = self.rvalue(fn, rv, st, fr, s[0], (bi, si))
            self.write(s[0], v, st)
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [("go", t[1], st)]
        if k == "ret":
            return [("ret", None, st)]
        if k == "drop":
            if self.on_drop:
                st = self.on_drop(self.deref(self.read(t[1], st), st), st)
            return [("go", t[2], st)]
        if k == "assert":
            v = self.deref(self.operand(fn, t[1], st, fr), st)
            return [] if v[0] == "b" and v[1] != bool(t[2]) else [("go", t[3], st)]
        if k == "switch":
            return self.switch(fn, bi, t, st, fr)
        if k == "call":
            return self.call(fn, bi, t, st, fr)
        if k == "yield":
            self.write(t[3], T, st)
            return [("go", t[2], st)]
        return []

    def switch(self, fn, bi, t, st, fr):
        v = self.deref(self.operand(fn, t[1], st, fr), st)
        self.pol.on_switch(self, fn, bi, v, st)
        targets = t[3]
        oth = t[4]
        if v[0] in ("i", "b"):
            n = int(v[1])
            for x, bb in targets:
                if x == n or (n < 0 and x == n & 0xFFFFFFFFFFFFFFFF) or (n < 0 and x in (n & 0xFF, n & 0xFFFF, n & 0xFFFFFFFF)):
                    return [("go", bb, st)]
            return [("go", oth, st)]
        if v[0] == "ch":
            for x, bb in targets:
                if x == ord(v[1]):
                    return [("go", bb, st)]
            return [("go", oth, st)]
        ty = fn.ty(t[2])
        out = []
        if v[0] == "y":
            tag = self.tag(v)
            if tag[0] == "disc":
                y, adt = tag[1], tag[2]
                s = self.disc_set(y, adt, st.G)
                vs = {x["d"]: x["n"] for x in self.prog.variants(adt) or []}
                rest = set(s)
                for x, bb in targets:
                    n = vs.get(x)
                    if n is None:
                        n = vs.get(x - (1 << 8)) or vs.get(x - (1 << 64)) or vs.get(x - (1 << 16)) or vs.get(x - (1 << 32))
                    if n in s:
                        rest.discard(n)
                        ns = st.fork()
                        ns.G[("d", y)] = frozenset([n])
                        self.ordering_refine(y, frozenset([n]), ns)
                        out.append(("go", bb, ns))
                if rest and fn.bb[oth]["t"][0] != "unreach":
                    ns = st.fork()
                    ns.G[("d", y)] = frozenset(rest)
                    self.ordering_refine(y, frozenset(rest), ns)
                    out.append(("go", oth, ns))
                return out
            if ty.get("k") == "bool":
                for val, ns in self.split_bool(v, st):
                    tgt = oth
                    for x, bb in targets:
                        if x == int(val):
                            tgt = bb
                    out.append(("go", tgt, ns))
                return out
            # opaque integer / char
            poss = st.G.get(("eq", v))
            if poss is not None and poss[0] in ("i", "ch"):
                n = poss[1] if poss[0] == "i" else ord(poss[1])
                for x, bb in targets:
                    if x == n:
                        return [("go", bb, st)]
                return [("go", oth, st)]
            for x, bb in targets:
                c = ("ch", chr(x)) if ty.get("k") == "char" and x < 0x110000 else ("i", x)
                s = self.ord_set(v, c, st)
                if "E" in s:
                    ns = st.fork()
                    self.set_ord(v, c, frozenset("E"), ns)
                    out.append(("go", bb, ns))
            if fn.bb[oth]["t"][0] != "unreach":
                ns = st.fork()
                dead = False
                for x, bb in targets:
                    c = ("ch", chr(x)) if ty.get("k") == "char" and x < 0x110000 else ("i", x)
                    s = self.ord_set(v, c, ns) - {"E"}
                    if not s:
                        dead = True
                        break
                    self.set_ord(v, c, s, ns)
                if not dead:
                    out.append(("go", oth, ns))
            return out
        for x, bb in targets:
            out.append(("go", bb, st.fork()))
        if fn.bb[oth]["t"][0] != "unreach":
            out.append(("go", oth, st.fork()))
        return out

    def ordering_refine(self, y, names, st):
        """a name standing for `a.cmp(b)` was matched: transfer to the ordering fact"""
        t = self.tag(y)
        if t[0] == "ordering":
            s = self.ord_set(t[1], t[2], st) & frozenset(ORDVAR[n] for n in names)
            if s:
                self.set_ord(t[1], t[2], s, st)
        elif t[0] == "." and t[2] == "0":
            u = self.tag(t[1])
            if u and u[0] == "@":
                w = self.tag(u[1])
                if w and w[0] == "pordering":
                    s = self.ord_set(w[1], w[2], st, True) & frozenset(ORDVAR[n] for n in names)
                    if s:
                        self.set_ord(w[1], w[2], s, st)
        elif t[0] == "pordering":
            s = self.ord_set(t[1], t[2], st, True)
            s = s & (frozenset("N") if names == {"None"} else frozenset("LEG"))
            if s:
                self.set_ord(t[1], t[2], s, st)

    # ---- calls
    def call(self, fn, bi, t, st, fr):
        args = [self.operand(fn, a, st, fr) for a in t[2]]
        site = Site(fn, bi, t[5], fr.ctx)
        dest, target = t[3], t[4]
        if t[1][0] == "k":
            callee = self.const(fn, t[1][1], st, fr)
        else:
            callee = self.deref(self.operand(fn, t[1], st, fr), st)
        if target is None:
            self.pol.on_panic(self, fn, bi, st)
            return []
        res = self.do_call(callee, args, st, site, fr)
        out = []
        for v, ns in res:
            ns = ns.fork()
            self.write(dest, v, ns)
            out.append(("go", target, ns))
        return out

    def gtype(self, fn, gi, fr):
        """type object (resolved through the frame's substitution)"""
        cr, ti = gi if isinstance(gi, tuple) else (fn.crate, gi)
        t = self.prog.ty(cr, ti)
        if t.get("k") == "param":
            for n, (c2, t2) in fr.sub:
                if n == t["n"]:
                    return self.prog.ty(c2, t2), c2
        return t, cr

    def do_call(self, callee, args, st, site, fr):
        """-> [(value, State)]"""
        if callee[0] == "c":
            return self.call_closure(callee, callee, args, st, site, fr)
        if callee[0] != "f":
            return self.opaque("<indirect>", callee, args, st, site, extra=callee)
        _, p, r, crate, g, tr, _res = callee
        name = r or p
        o = self.pol.on_call(self, site, name, callee, args, st)
        if o is not None:
            return o
        from . import natives
        # Fn* traits
        if p.startswith("core::ops::function::Fn") and len(args) == 2:
            f0 = args[0]
            f = self.deref(f0, st)
            tup = self.deref(args[1], st)
            targs = list(tup[1]) if tup[0] == "t" else None
            if f[0] == "c" and targs is not None:
                return self.call_closure(f0, f, targs, st, site, fr)
            if f[0] == "f" and targs is not None:
                return self.do_call(f, targs, st, site, fr)
            return self.opaque(name, callee, ([f] + (targs or [tup])), st, site, label=("apply",))
        body = self.prog.fns.get(name)
        if body is not None and body.d.get("intrait"):
            body = None     # provided method: prefer the impl's override, see dispatch
        if tr and body is None:
            b2 = self.dispatch(p, tr, args, g, crate, st, fr, site)
            if b2 is not None:
                body = b2
                name = b2.id
                o = self.pol.on_call(self, site, name, callee, args, st)
                if o is not None:
                    return o
                callee = ("f", p, name) + callee[3:]
        if body is None or natives.norm(p) in natives.FORCE or natives.norm(p) in natives.HYBRID:
            nat = natives.lookup(p) or (natives.lookup(name) if name != p else None)
            if nat is not None:
                res = nat(self, st, args, site, callee, fr)
                if res is not None:
                    return res
        m = natives.model(p, name, self, args, st, callee) if body is None else None
        if m is not None:
            mf = self.prog.fns.get("vmodels::" + m)
            if mf is None:
                raise KeyError("missing model " + m)
            res = self.inline(mf, args, st, site, fr, g if len(g) == len(mf.gen) else (), crate)
            return res if res is not None else self.opaque(name, callee, args, st, site)
        ctor = self.ctor(name, args)
        if ctor is not None:
            return [(ctor, st)]
        if body is not None and len(fr.ctx) < self.pol.max_depth and body.kind in ("fn", "method", "closure") and self.pol.inline(body):
            if body.argc == len(args):
                res = self.inline(body, args, st, site, fr, g, crate)
                if res is not None:
                    return res
        return self.opaque(name, callee, args, st, site)

    def ctor(self, name, args):
        base, _, last = name.rpartition("::")
        import re
        base = re.sub(r"::<[^:]*>$", "", base)
        a = self.prog.adts.get(base)
        if a and a["k"] == "enum":
            for v in a["v"]:
                if v["n"] == last and len(v["f"]) == len(args):
                    return ("a", base, last, tuple(args))
        a = self.prog.adts.get(name)
        if a and a["k"] == "struct" and len(a["v"][0]["f"]) == len(args) and name not in self.prog.fns:
            return ("a", name, "", tuple(args))
        return None

    def dispatch(self, p, tr, args, g, crate, st, fr, site):
        """find the body of trait method p for this receiver"""
        impls = self.prog.impls.get(p)
        default = self.prog.fns.get(p)
        if not impls:
            return default
        v = self.deref(args[0], st) if args else T
        path = None
        if v[0] == "a":
            path = v[1]
        selft = None
        if g:
            selft, scr = self.gtype(site.fn, g[0], fr)
            while selft.get("k") == "ref":
                selft = self.prog.ty(scr, selft["a"][0])
        if v[0] != "a" and selft is not None and selft.get("k") == "adt":
            path = selft["adt"]
            if v[0] in ("L", "s", "i", "b", "t") and path in (OPT, RES):
                # the name of a type parameter bound elsewhere
                return self.by_value(impls, v)
        if p == "core::convert::From::from" or p == "core::convert::Into::into":
            return None
        if path is not None:
            c = [x for x in impls if x[1].get("adt") == path]
            if len(c) > 1 and selft is not None:
                c2 = [x for x in c if x[1]["s"] == selft.get("s")]
                if len(c2) == 1:
                    c = c2
                elif len(g) > 1:
                    # distinguish by the trait's type arguments (PartialEq<X>, From<X>)
                    t1, _ = self.gtype(site.fn, g[1], fr)
                    c2 = [x for x in c if "<" + t1["s"] + ">" in x[3]]
                    if len(c2) == 1:
                        c = c2
            if len(c) == 1:
                f = self.prog.fns.get(c[0][0])
                if f is not None:
                    return f
            if not c and default is not None:
                return default
            return self.by_value(impls, v) if not c else None
        if selft is not None and selft.get("k") in ("param", "dyn", "alias"):
            return self.by_value(impls, v)
        if selft is not None:
            c = [x for x in impls if x[1]["s"] == selft.get("s")]
            if len(c) == 1:
                return self.prog.fns.get(c[0][0])
            if not c and default is None:
                return self.by_value(impls, v)
        return default

    def by_value(self, impls, v):
        """the one implementation whose (referenced) self type a value of this kind can have"""
        c = []
        for x in impls:
            t, cr = x[1], x[2]
            while t.get("k") == "ref" and t.get("a"):
                t = self.prog.ty(cr, t["a"][0])
            if v[0] == "a" and t.get("adt") == v[1] or v[0] == "s" and (t["s"] == "str" or t.get("adt") == "alloc::string::String") or v[0] == "i" and t.get("k") == "int" \
                    or v[0] == "L" and t.get("adt") == "alloc::vec::Vec":
                c.append(x)
        return self.prog.fns.get(c[0][0]) if len(c) == 1 else None

    def call_closure(self, f0, f, targs, st, site, fr):
        body = self.prog.fns.get(f[1])
        if body is None:
            return self.opaque(f[1], f, targs, st, site)
        if len(f) > 3:
            return [(f, st)]
        o = self.pol.on_call(self, site, f[1], f, targs, st)
        if o is not None:
            return o
        if body.argc != len(targs) + 1:
            return self.opaque(f[1], f, targs, st, site)
        if f0[0] == "p":
            selfv = f0
        elif has_ptr(f) or True:
            selfv = f
        # FnMut by value mutating captured state: give the body a cell
        res = self.inline(body, [selfv] + list(targs), st, site, fr, (), body.crate)
        if res is None:
            return self.opaque(f[1], f, targs, st, site)
        return res

    def run_coroutine(self, co, st, site, fr):
        body = self.prog.fns.get(co[1])
        if body is None:
            return None
        return self.inline(body, [co] + [T] * (body.argc - 1), st, site, fr, (), body.crate)

    def inline(self, body, args, st, site, fr, g, crate):
        ctx = fr.ctx + (self.ctxid(site),)
        if len(ctx) > self.pol.max_depth + 12:
            return None
        # pointers -> callee external cells
        order = []
        idx = {}

        def visit(v):
            ps = []
            collect_ptrs(v, ps)
            for c in ps:
                if c not in idx:
                    idx[c] = len(order)
                    order.append(c)
                    visit(st.env.get(c, T))
        for a in args:
            visit(a)

        def down(p):
            return ("p", -1 - idx[p[1]], p[2])
        cargs = tuple(map_ptr(a, down) for a in args)
        cells = tuple(map_ptr(st.env.get(c, T), down) for c in order)
        sub = []
        if g and body.gen and len(g) == len(body.gen):
            for n, gi in zip(body.gen, g):
                t = self.prog.ty(*gi)
                if t.get("k") == "param":
                    for n2, x in fr.sub:
                        if n2 == t["n"]:
                            sub.append((n, x))
                else:
                    sub.append((n, gi))
        elif not g and body.kind in ("closure", "coroutine"):
            sub = list(fr.sub)
        self.inlined.add(body.id)
        outs = self.exec_fn(body, cargs, cells, st.G, ctx, tuple(sub))
        if outs is None:
            self.recursion_cut.add(body.id)
            return None

        def up(p):
            c = order[-1 - p[1]] if p[1] < 0 and -1 - p[1] < len(order) else None
            return ("p", c, p[2]) if c is not None else T
        res = []
        outs = self.gc(outs, st.G)
        for ret, oc, G in outs:
            ns = State(dict(st.env), dict(G))
            for c, v in zip(order, oc):
                ns.env[c] = map_ptr(v, up)
            res.append((map_ptr(ret, up), ns))
        return res

    def names_in(self, v, acc):
        k = v[0]
        if k == "y":
            if v[1] not in acc:
                acc.add(v[1])
                self._names_tag(self.syms[v[1]], acc)
        elif k == "a":
            for x in v[3]:
                self.names_in(x, acc)
        elif k in ("t", "L"):
            for x in v[1]:
                self.names_in(x, acc)
        elif k in ("c", "V"):
            for x in v[2]:
                self.names_in(x, acc)
        elif k == "it":
            self.names_in(v[1], acc)
        elif k == "u":
            self.names_in(v[1], acc)
            for _, x in v[2]:
                self.names_in(x, acc)

    def forget(self, st, G0):
        """drop the facts about names that no live value mentions (coarser partitioning, still sound)"""
        if not st.G:
            return
        acc = None
        dead = []
        for k in st.G:
            if k[0] not in ("d", "b", "o", "eq", "started") or (k in G0 and G0[k] == st.G[k]):
                continue
            if acc is None:
                acc = set()
                for v in st.env.values():
                    acc |= self.names_of(v)
            ids = [x for x in k[1:] if x[0] == "y"]
            if ids and all(x[1] in acc for x in ids):
                continue
            if self.pol.keep(self, k, st.G[k]):
                continue
            dead.append(k)
        if dead:
            st.G = dict(st.G)
            for k in dead:
                del st.G[k]

    def widen(self, fn, bi, st, G0):
        """too many states at this block: give up the values the rule does not need"""
        ne = {}
        fresh = set()
        self.widened += 1
        for k, v in st.env.items():
            if v[0] in ("a", "y", "b", "i", "s", "t", "u") and not has_ptr(v) and not self.pol.precious(self, v):
                v = self.sym("widen", fn.id, k)
                fresh.add(v[1])
            ne[k] = v
        st.env = ne
        g = {}
        for k, v in st.G.items():
            if k[0] in ("d", "b", "o", "eq", "started") and not (k in G0 and G0[k] == v):
                if not self.pol.keep(self, k, v):
                    continue
            if k[0] != "pend" and any(x[0] == "y" and x[1] in fresh for x in k[1:] if isinstance(x, tuple)):
                continue
            g[k] = v
        st.G = g

    def names_of(self, v):
        r = self._names.get(v)
        if r is None:
            a = set()
            self.names_in(v, a)
            r = frozenset(a)
            self._names[v] = r
        return r

    def _names_tag(self, t, acc):
        for x in t:
            if isinstance(x, tuple) and x:
                if x[0] in ("y", "a", "t", "L", "c", "V", "it", "u"):
                    self.names_in(x, acc)
                elif x[0] not in ("s", "b", "i", "ch", "fl", "f", "T", "p"):
                    self._names_tag(x, acc)

    def gc(self, outs, G0):
        """forget the facts a callee established about names nobody can see any more"""
        if len(outs) < 2:
            return outs
        res, seen = [], set()
        for ret, oc, G in outs:
            new = [k for k in G if k not in G0 or G0[k] != G[k]]
            if new:
                acc = set()
                self.names_in(ret, acc)
                for c in oc:
                    self.names_in(c, acc)
                G2 = dict(G)
                for k in new:
                    if k[0] not in ("d", "b", "o", "eq", "started"):
                        continue
                    ids = [x for x in k[1:] if x[0] == "y"]
                    if all(x[1] in acc for x in ids) and ids:
                        continue
                    if self.pol.keep(self, k, G[k]):
                        continue
                    if k in G0:
                        G2[k] = G0[k]
                    else:
                        del G2[k]
                G = G2
            kk = (ret, oc, frozenset(G.items()))
            if kk not in seen:
                seen.add(kk)
                res.append((ret, oc, G))
        return res

    def ctxid(self, site):
        k = ("ctx", site.fn.id, site.bb)
        i = self.symtab.get(k)
        if i is None:
            i = len(self.syms)
            self.symtab[k] = i
            self.syms.append(k)
        return i

    def opaque(self, name, callee, args, st, site, extra=None, label=()):
        """result of a call that is not analysed: a name; &mut arguments are havocked"""
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        ns = st
        ptrs = []
        for a in args:
            collect_ptrs(a, ptrs)
        clean = [self.deref(a, st) if a[0] == "p" else a for a in args]
        if ptrs:
            ns = st.fork()
            for a in args:
                if a[0] == "p":
                    old = self.deref(a, ns)
                    if old[0] != "c":
                        y = self.sym("mut", name, site.key(), str(a[1:]))
                        self.purge(ns, y)
                        self.write_cell(a[1], a[2], y, ns)
            y = self.sym("r", name, self.ctxid(site), site.ctx)
            self.purge(ns, y)
            return [(y, ns)]
        vals = tuple(self._noptr(a) for a in clean)
        if any(v[0] == "T" for v in vals) or not vals:
            y = self.sym("r", name, self.ctxid(site), site.ctx)
            ns = st.fork()
            self.purge(ns, y)
            return [(y, ns)]
        return [(self.sym("call", name, vals), ns)]


class Frame:
    __slots__ = ("fn", "ctx", "sub", "borrowed")

    def __init__(self, fn, ctx, sub, borrowed):
        self.fn, self.ctx, self.sub, self.borrowed = fn, ctx, sub, borrowed


def run(prog, fn, args=None, policy=None, G=None, interp=None):
    """Analyse fn from abstract arguments. Returns (interp, [(ret, cells, G)]).

    args default to opaque names `in(<param name>)`; &mut parameters become pointers to named cells."""
    I = interp or Interp(prog, policy)
    if policy is not None:
        I.pol = policy
    av = []
    cells = []
    for i in range(fn.argc):
        v = args[i] if args is not None and i < len(args) else None
        nm = fn.names.get(str(i + 1), "arg%d" % i)
        t = fn.local_ty(i + 1)
        if v is None:
            v = I.sym("in", nm)
        if t.get("k") == "ref" and t.get("m") and v[0] != "p":
            cells.append(v)
            v = ("p", -len(cells), ())
        av.append(v)
    outs = I.exec_fn(fn, tuple(av), tuple(cells), G or {}, (), ())
    return I, outs
