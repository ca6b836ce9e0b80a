"""P22: regular bag expressions. Every function is interpreted one constructor at a time with opaque sub-expressions (their results are
given by the handlers), so that a table that holds for every result of the parts holds, by induction, for every expression."""
import itertools, re
from vf import absint
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *

TITLE = "Triple expressions match exactly the bags of triples their cardinalities allow"
MAXT, MINT, CARD, INTV, RBE = "rbe::max::Max", "rbe::min::Min", "rbe::cardinality::Cardinality", "rbe::interval::Interval", "rbe::rbe::Rbe"
EITHER = "either::Either"
BAG, STRUCT = "rbe::bag::Bag", "rbe::rbe_struct::RbeStruct"
INF = float("inf")
GRID = [0, 1, 2, 3, INF]
CARDS = [(a, b) for a in (0, 1, 2, 3) for b in (0, 1, 2, 3, INF) if a <= b]
TAIL = 40          # scale factors compared one by one up to here, then by boundedness


def mx(v): return ("a", MAXT, "Unbounded", ()) if v == INF else ("a", MAXT, "IntMax", (("i", v),))
def mn(v): return ("a", MINT, "", (("i", v),))
def card(c): return ("a", CARD, "", (mn(c[0]), mx(c[1])))
def iv(a, b): return ("a", INTV, "", (mx(a), mx(b)))
def rb(variant, *f): return ("a", RBE, variant, f)


def num(v):
    if v[0] == "a" and v[1] == MAXT:
        return INF if v[2] == "Unbounded" else num(v[3][0])
    if v[0] == "a" and v[1] == MINT:
        return num(v[3][0])
    return v[1] if v[0] == "i" else None


def ivals(v):
    """the set of scale factors an Interval value contains"""
    if v[0] != "a" or v[1] != INTV:
        return None
    n, m = (num(x) for x in v[3])
    if n is None or m is None:
        return None
    return ivset(n, m)


def ivset(n, m):
    return (tuple(i for i in range(TAIL) if n <= i <= m), n != INF and m == INF)


def plain(fid):
    """path of a function without generic arguments"""
    out, d = [], 0
    i = 0
    while i < len(fid):
        if fid.startswith("::<", i) and d == 0:
            d, i = 1, i + 3
            continue
        ch = fid[i]
        if d:
            d += (ch == "<") - (ch == ">" and fid[i - 1] != "-")
        else:
            out.append(ch)
        i += 1
    return "".join(out)


def fnid(P, owner, name):
    """inherent function `name` of the type `owner`"""
    c = [f for f in P.fns.values() if f.kind in ("fn", "method") and f.name == name and f.id.startswith("rbe::") and plain(f.id).endswith("::%s::%s" % (owner, name))]
    return c[0] if len(c) == 1 else None


class Alg:
    """interpreter for expressions with opaque parts"""

    def __init__(self, P):
        self.P = P
        self.res = {}           # (function, part) -> result
        self.I = new_interp(P, [(r"(^|::)(interval|is_nullable|nullable|mandatory_values|deriv|symbols|symbols_aux|no_symbols_in_bag|symbol_cardinalities_aux|has_repeated_symbols|fx|fi|once|zero|is_fail|match_bag_deriv|symbol_cardinalities|matches|refs|clone)$", self.h_part),
                                (r"PartialEq(<.*>)?(>)?::(eq|ne)$", self.h_eq),
                                (r"Bag(<.*>)?(::<.*>)?::contains$", self.h_bag),
                                (r"^hashbag::.*::(new|insert|insert_many|contains|set_iter|is_empty|len)$", self.h_hashbag),
                                (r"multi_cartesian_product$", self.h_product)],
                            seq_cap=64, int_cap=10 ** 6, inline_display=False)
        self.counts, self.env = {}, {}

    def part(self, i):
        return self.I.sym("part", i)

    def h_part(self, I, site, name, callee, args, st):
        m = name.rsplit("::", 1)[1]
        a = [I.deref(x, st) for x in args]
        if m == "clone":
            return [(a[0], st)] if a and a[0][0] in "ya" else None
        for pos in (0, 1):
            if pos < len(a) and a[pos][0] == "y" and I.tag(a[pos])[0] == "part":
                k = I.tag(a[pos])[1]
                if m == "symbols_aux":
                    n = st.fork()
                    cell = args[1]
                    cur = I.deref(cell, n)
                    add = [("s", s) for s in self.res.get(("symbols", k), ())]
                    if cur[0] != "L" or cell[0] != "p":
                        return None
                    I.write_cell(cell[1], cell[2], ("L", cur[1] + tuple(x for x in add if x not in cur[1])), n)
                    return [(UNIT, n)]
                if m == "symbols":
                    return [(("L", tuple(("s", s) for s in self.res.get(("symbols", k), ()))), st)]
                if m == "no_symbols_in_bag":
                    return [(("b", all(self.counts.get(s, 0) == 0 for s in self.res.get(("symbols", k), ()))), st)]
                if m == "deriv" and (len(a) < 3 or a[2] != ("i", 1)):
                    return None     # the derivative by one occurrence is what the parts know
                r = self.res.get((m, k))
                if r is None and len(a) > 1 and a[1][0] == "s":
                    r = self.res.get((m, k, a[1][1]))
                if r is not None:
                    return [(r, st)]
        return None

    def h_eq(self, I, site, name, callee, args, st):
        """two parts are equal only if their languages are"""
        a, b = (I.deref(x, st) for x in args)
        if a[0] == "a" and a[1] != RBE or b[0] == "a" and b[1] != RBE or "y" not in (a[0], b[0]) and not (a[0] == b[0] == "a"):
            return None
        ne = name.endswith("ne")
        if a == b:
            return [(("b", not ne), st)]
        try:
            same = lang(a, self.env) == lang(b, self.env)
        except (KeyError, IndexError, TypeError):
            return None
        return [(("b", v), st.fork()) for v in ((ne, not ne) if same else (ne,))]

    def h_bag(self, I, site, name, callee, args, st):
        v, b = I.deref(args[1], st), I.deref(args[0], st)
        return [(("i", self.counts.get(v[1], 0)), st)] if v[0] == "s" and b[0] == "y" else None

    def h_hashbag(self, I, site, name, callee, args, st):
        """a bag is the list of its (element, count)"""
        m = name.rsplit("::", 1)[1]
        if m == "new":
            return [(("L", ()), st)]
        b = I.deref(args[0], st)
        if b[0] != "L":
            return None
        if m == "set_iter":
            return [(("it", b), st)]
        if m == "is_empty":
            return [(("b", not b[1]), st)]
        if m == "len":
            return [(("i", sum(x[1][1][1] for x in b[1])), st)]
        k = I.deref(args[1], st)
        hit = [i for i, x in enumerate(b[1]) if x[1][0] == k]
        n = b[1][hit[0]][1][1][1] if hit else 0
        if m == "contains":
            return [(("i", n), st)]
        add = I.deref(args[2], st)[1] if m == "insert_many" else 1
        new = ("t", (k, ("i", n + add)))
        s = st.fork()
        I.write_cell(args[0][1], args[0][2], ("L", b[1][:hit[0]] + (new,) + b[1][hit[0] + 1:] if hit else b[1] + (new,)), s)
        return [(("i", n), s)]

    def h_product(self, I, site, name, callee, args, st):
        its = I.deref(args[0], st)
        ls = its[1] if its[0] == "it" else its
        if ls[0] != "L" or any(x[0] != "L" for x in ls[1]):
            return None
        return [(("it", ("L", tuple(("L", x) for x in itertools.product(*[x[1] for x in ls[1]])) if ls[1] else (("L", ()),))), st)]

    def call(self, f, *args, cells=(), G=None):
        self.I.memo.clear()
        self.I.steps = 0
        outs = self.I.exec_fn(f, tuple(args), tuple(cells), dict(G or {}), (), ())
        return outs

    def one(self, f, *args, cells=()):
        """the value, if it is the same on every path"""
        outs = self.call(f, *args, cells=cells)
        vs = {o[0] for o in outs or ()}
        return vs.pop() if len(vs) == 1 else None


def anch(c, rid, f, what):
    if f is None:
        c.ob(rid, "anchor/" + what, "-", False, "%s not found" % what)
    return f


def loc(f):
    return "%s:%s" % (f.file, f.line) if hasattr(f, "line") else f.id


def table(c, rid, key, f, what, rows):
    """rows: [(description, got, want)]; one obligation per (key): every row agrees"""
    bad = [r for r in rows if r[1] != r[2]]
    c.ob(rid, key, f.id, not bad, "%s: %d rows" % (what, len(rows)) if not bad else
         "%s: %s gives %s instead of %s (%d of %d rows differ)" % ((what,) + tuple(str(x) for x in bad[0]) + (len(bad), len(rows))))


# ---- the arithmetic of bounds -----------------------------------------------------------------------------------------------
def bounds(c, A):
    P = A.P
    rid = "bounds"
    c.rule(rid, "Max, Cardinality, Interval: order, minimum, maximum, sum, difference and the rounded quotients of bounds, with Unbounded as infinity; bounds propagated as constants over {0,1,2,3,unbounded}")
    g = lambda o, n: anch(c, rid, fnid(P, o, n), o + "::" + n)
    val = lambda v: None if v is None else (v[1] if v[0] == "b" else num(v))
    for nm, spec in (("max", max), ("min", min), ("plus", lambda a, b: a + b), ("greater_than", lambda a, b: a > b)):
        f = g("Max", nm)
        if f:
            table(c, rid, "Max/" + nm, f, "Max::" + nm, [("%s %s %s" % (a, nm, b), val(A.one(f, mx(a), mx(b))), spec(a, b)) for a in GRID for b in GRID])
    f = g("Max", "greater_or_equal")
    if f:
        table(c, rid, "Max/greater_or_equal", f, "Max::greater_or_equal", [("%s >= %s" % (a, n), val(A.one(f, mx(a), ("i", n))), a >= n) for a in GRID for n in range(5)])
    f = g("Max", "minus")
    if f:
        table(c, rid, "Max/minus", f, "Max::minus", [("%s - %s" % (a, n), val(A.one(f, mx(a), ("i", n))), max(a - n, 0)) for a in GRID for n in range(5)])
    for nm, spec in (("contains", lambda k, n: k[0] <= n <= k[1]),):
        f = g("Cardinality", nm)
        if f:
            table(c, rid, "Cardinality/" + nm, f, "Cardinality::" + nm, [("%s %s %s" % (k, nm, n), val(A.one(f, card(k), ("i", n))), spec(k, n)) for k in CARDS for n in range(5)])
    f = g("Cardinality", "minus")
    if f:
        rows = []
        for k in CARDS:
            for n in (0, 1, 2):
                r = A.one(f, card(k), ("i", n))
                got = tuple(num(x) for x in r[3]) if r and r[0] == "a" else r
                rows.append(("%s minus %s" % (k, n), got, (max(k[0] - n, 0), max(k[1] - n, 0))))
        table(c, rid, "Cardinality/minus", f, "Cardinality::minus", rows)
    for nm, spec in (("nullable", lambda k: k[0] == 0), ("is_0_0", lambda k: k == (0, 0)), ("is_1_1", lambda k: k == (1, 1)), ("is_star", lambda k: k == (0, INF)),
                     ("is_plus", lambda k: k == (1, INF))):
        f = fnid(P, "Cardinality", nm)
        if f:
            table(c, rid, "Cardinality/" + nm, f, "Cardinality::" + nm, [(str(k), val(A.one(f, card(k))), spec(k)) for k in CARDS])
    IV = [(a, b) for a in GRID for b in GRID]
    for nm, spec in (("intersection", lambda a, b: (max(a[0], b[0]), min(a[1], b[1]))), ("addition", lambda a, b: (a[0] + b[0], a[1] + b[1]))):
        f = g("Interval", nm)
        if f:
            table(c, rid, "Interval/" + nm, f, "Interval::" + nm, [("%s %s %s" % (a, nm, b), ivals(A.one(f, iv(*a), iv(*b)) or T), ivset(*spec(a, b))) for a in IV for b in IV
                                                                     if nm != "addition" or (a[0] <= a[1] and b[0] <= b[1] and INF not in (a[0], b[0]))])
    f = g("Interval", "contains")
    if f:
        table(c, rid, "Interval/contains", f, "Interval::contains", [("%s in %s" % (n, a), val(A.one(f, iv(*a), ("i", n))), a[0] <= n <= a[1]) for a in IV for n in range(5)])
    f = g("Interval", "is_empty")
    if f:
        table(c, rid, "Interval/is_empty", f, "Interval::is_empty", [(str(a), val(A.one(f, iv(*a))), a[0] == INF or a[0] > a[1]) for a in IV])


# ---- interval --------------------------------------------------------------------------------------------------------------
def scaled(k, w):
    """numbers i of rounds such that w is between min*i and max*i"""
    ok = lambda i: k[0] * i <= w and (w <= k[1] * i if not (k[1] == INF and i == 0) else w == 0)
    return (tuple(i for i in range(TAIL) if ok(i)), ok(10 ** 6))


def interval(c, A):
    P = A.P
    rid = "interval"
    c.rule(rid, "Rbe::interval: the numbers of rounds in which an expression consumes exactly a bag: per constructor, from the intervals of the parts (every pair of bounds of the grid) and the "
                "number of their symbols in the bag: the quotients for a symbol, intersection for a conjunction, sum for a disjunction, the numbers of rounds that reach the interval of the group for a repetition")
    f = anch(c, rid, fnid(P, "Rbe", "interval"), "Rbe::interval")
    if not f:
        return
    bag = A.I.sym("in", "BAG")
    rows = []
    for k in CARDS:
        for w in range(6):
            A.counts = {"a": w}
            rows.append(("a%s with %d a" % (k, w), ivals(A.one(f, rb("Symbol", ("s", "a"), card(k)), bag) or T), scaled(k, w)))
    table(c, rid, "Symbol", f, "interval of a symbol", rows)
    A.counts = {}
    table(c, rid, "Empty", f, "interval of the empty expression", [("Empty", ivals(A.one(f, rb("Empty"), bag) or T), ivset(0, INF))])
    NE = [(a, b) for a in GRID for b in GRID if a <= b and a != INF]
    SUB = NE + [(2, 1)]
    for nm in ("And", "Or"):
        rows = []
        for n in (0, 1, 2, 3):
            pool = SUB if n < 3 else [(0, INF), (1, 2), (2, 1), (0, 0), (1, INF), (2, 3)]
            for combo in itertools.product(pool, repeat=n):
                A.res = {("interval", i): iv(*x) for i, x in enumerate(combo)}
                A.res.update({("symbols", i): () for i in range(n)})
                got = ivals(A.one(f, rb(nm, ("L", tuple(A.part(i) for i in range(n)))), bag) or T)
                if nm == "And":
                    want = ivset(max([x[0] for x in combo] + [0]), min([x[1] for x in combo] + [INF]))
                elif any(x[0] > x[1] for x in combo):
                    want = ((), False)
                else:
                    want = ivset(sum(x[0] for x in combo), sum(x[1] for x in combo))
                rows.append(("%s of %s" % (nm, list(combo)), got, want))
        table(c, rid, nm, f, "interval of %s" % nm, rows)
    for nm, cards in (("Star", [(0, INF)]), ("Plus", [(1, INF)]), ("Repeat", CARDS)):
        rows = []
        for k in cards:
            for counts in ({}, {"a": 1}, {"b": 1}, {"a": 2, "b": 1}, {"c": 1}):
                w = int("a" in counts or "b" in counts)
                A.counts = counts
                # with no symbol of the group in the bag, any number of rounds (nullable) or none; otherwise at least one
                for sub in ([(0, INF), (0, 0)] if w == 0 else [x for x in SUB if x[0] >= 1]):
                    null = w == 0 and sub == (0, INF)
                    A.res = {("interval", 0): iv(*sub), ("symbols", 0): ("a", "b")}
                    if w == 0:
                        A.res.update({("is_nullable", 0): ("b", null), ("mandatory_values", 0): ("a", EITHER, "Right", (("L", () if null else (("s", "a"),)),))})
                        res = [null]
                    else:
                        res = [None]
                    for _ in res:
                        if w:
                            # nullability does not matter: both answers give the same interval
                            got = set()
                            for b in (True, False):
                                A.res.update({("is_nullable", 0): ("b", b), ("mandatory_values", 0): ("a", EITHER, "Right", (("L", () if b else (("s", "a"),)),))})
                                got.add(ivals(A.one(f, rb(nm, A.part(0), *([card(k)] if nm == "Repeat" else [])), bag) or T))
                            got = got.pop() if len(got) == 1 else got
                        else:
                            got = ivals(A.one(f, rb(nm, A.part(0), *([card(k)] if nm == "Repeat" else [])), bag) or T)

                        def ok(i):
                            lo = k[0] * i
                            hi = 0 if i == 0 else k[1] * i
                            return max(lo, sub[0]) <= min(hi, sub[1])
                        want = (tuple(i for i in range(TAIL) if ok(i)), ok(10 ** 6))
                        rows.append(("%s%s of a group with interval %s, %s" % (nm, k if nm == "Repeat" else "", sub, "no symbol in the bag" if w == 0 else "symbols in the bag"), got, want))
        table(c, rid, nm, f, "interval of %s" % nm, rows)
    A.counts = {}
    A.res = {}


# ---- nullability -----------------------------------------------------------------------------------------------------------
def nullable(c, A):
    P = A.P
    rid = "nullable"
    c.rule(rid, "Rbe::is_nullable and RbeCond::nullable: the empty bag matches iff the minimum is 0, all the conjuncts, some disjunct, or the group of a repetition match it, per constructor for any nullability of the parts")
    RC = "rbe::rbe_cond::RbeCond"
    for ty, adt, nm in (("Rbe", RBE, "is_nullable"), ("RbeCond", RC, "nullable")):
        f = [x for x in P.fns.values() if x.kind in ("fn", "method") and x.name == nm and ("::%s::<" % ty in x.id or "::%s::%s" % (ty, nm) in x.id)]
        f = anch(c, rid, f[0] if len(f) == 1 else None, ty + "::" + nm)
        if not f:
            continue
        extra = () if ty == "Rbe" else (A.I.sym("in", "cond"),)
        v = lambda variant, *a: ("a", adt, variant, a)
        B = lambda x: x[1] if x is not None and x[0] == "b" else x
        rows = [("a%s" % (k,), B(A.one(f, v("Symbol", ("s", "a"), *(extra + (card(k),))))), k[0] == 0) for k in CARDS]
        rows.append(("Empty", B(A.one(f, v("Empty"))), True))
        rows.append(("Fail", B(A.one(f, v("Fail", A.I.sym("in", "err")))), False))

        def setp(i, val, left):
            for m in ("is_nullable", "nullable"):
                A.res[(m, i)] = ("b", val)
            A.res[("mandatory_values", i)] = ("a", EITHER, "Left", (("L", (A.I.sym("in", "err"),)),)) if left else ("a", EITHER, "Right", (("L", () if val else (("s", "a"),)),))
        states = [(True, False), (False, False), (False, True)]
        for variant, red in (("And", all), ("Or", any)):
            for n in (0, 1, 2, 3):
                for combo in itertools.product(states, repeat=n):
                    if variant == "Or" and n == 0:
                        continue
                    for i, s in enumerate(combo):
                        setp(i, *s)
                    rows.append(("%s of %s" % (variant, [s[0] for s in combo]), B(A.one(f, v(variant, ("L", tuple(A.part(i) for i in range(n)))))), red(s[0] for s in combo)))
        for s in states:
            setp(0, *s)
            rows.append(("Star of %s" % s[0], B(A.one(f, v("Star", A.part(0)))), True))
            rows.append(("Plus of %s" % s[0], B(A.one(f, v("Plus", A.part(0)))), s[0]))
            for k in CARDS:
                rows.append(("Repeat%s of %s" % (k, s[0]), B(A.one(f, v("Repeat", A.part(0), card(k)))), s[0] or k[0] == 0))
        table(c, rid, ty, f, "nullability", rows)
        A.res = {}


# ---- derivatives -----------------------------------------------------------------------------------------------------------
BND = 4          # bags over the symbols a, b with at most BND of each
BAGS = [(i, j) for i in range(BND + 1) for j in range(BND + 1)]
EPS = frozenset([(0, 0)])


def cat(x, y):
    return frozenset((a + d, b + e) for a, b in x for d, e in y if a + d <= BND and b + e <= BND)


def power(l, k):
    r, cur = set(), EPS
    i = 0
    hi = k[1] if k[1] != INF else 2 * BND + k[0] + 1
    while i <= hi:
        if i >= k[0]:
            r |= cur
        cur = cat(cur, l)
        i += 1
    return frozenset(r)


def lang(v, env):
    """bags (bounded) of an expression value; env: part index -> language"""
    if v[0] == "y":
        return env[v]
    n, f = v[2], v[3]
    if n == "Fail":
        return frozenset()
    if n == "Empty":
        return EPS
    if n == "Symbol":
        lo, hi = num(f[1][3][0]), num(f[1][3][1])
        return frozenset(((i, 0) if f[0][1] == "a" else (0, i)) for i in range(BND + 1) if lo <= i <= hi)
    if n in ("And", "Or"):
        ls = [lang(x, env) for x in f[0][1]]
        if n == "Or":
            return frozenset().union(*ls)
        r = EPS
        for l in ls:
            r = cat(r, l)
        return r
    if n == "Star":
        return power(lang(f[0], env), (0, INF))
    if n == "Plus":
        return power(lang(f[0], env), (1, INF))
    if n == "Repeat":
        return power(lang(f[0], env), (num(f[1][3][0]), num(f[1][3][1])))
    raise KeyError(n)


def quot(l):
    """derivative by the symbol a"""
    return frozenset((i - 1, j) for i, j in l if i > 0)


def cut(l):
    """what is exact of a derivative computed from bags of at most BND"""
    return frozenset((i, j) for i, j in l if i < BND)


LEAVES = [frozenset([(1, 0)]), frozenset([(0, 1)]), EPS, frozenset([(0, 0), (1, 0)]), frozenset([(1, 1)]), frozenset([(2, 0)]), frozenset([(1, 0), (0, 1)]), frozenset([(0, 0), (1, 1), (2, 0)]),
          frozenset([(2, 0), (0, 1)])]


def deriv(c, A):
    P = A.P
    rid = "deriv"
    c.rule(rid, "Rbe::deriv: the expression left after one occurrence of a symbol, per constructor: for every language of the parts (and the parts' derivatives, failed or not) the bags of the result are those "
                "of the constructor without one occurrence of the symbol (bags of up to 4 occurrences of two symbols)")
    f = anch(c, rid, fnid(P, "Rbe", "deriv"), "Rbe::deriv")
    if not f:
        return
    X, CTRL = ("s", "a"), A.I.sym("in", "controlled")
    rows = []

    def check(v, env, desc):
        A.env = env
        variants = [x["n"] for x in P.variants(RBE)]
        # a part that is not Fail may be any other expression
        outs = A.call(f, v, X, ("i", 1), FALSE, CTRL, G={("d", y): frozenset(x for x in variants if x != "Fail") for y in env})
        got = set()
        for o in outs or [(T, (), {})]:
            if any(set(o[2].get(("d", y), ())) == {"Empty"} and l != EPS for y, l in env.items()):
                continue            # the path assumes that a part is the empty expression, whose language is another
            try:
                got.add(cut(lang(o[0], env)))
            except (KeyError, IndexError, TypeError):
                got.add("not exact: " + A.I.show(o[0])[:200])
        want = cut(quot(lang(v, env)))
        rows.append((desc, sorted(got.pop()) if len(got) == 1 and not isinstance(next(iter(got)), str) else got, sorted(want)))
    for k in CARDS:
        for s in "ab":
            check(rb("Symbol", ("s", s), card(k)), {}, "%s%s by a" % (s, k))
    check(rb("Empty"), {}, "Empty by a")
    table(c, rid, "atom", f, "derivative of a symbol and of the empty expression", rows)

    def parts(ls, fails):
        env = {}
        A.res = {}
        for i, (l, fl) in enumerate(zip(ls, fails)):
            d = A.I.sym("dpart", i)
            env[A.part(i)] = l
            env[d] = quot(l)
            A.res[("deriv", i)] = rb("Fail", A.I.sym("in", "err")) if fl else d
            A.res[("is_fail", i)] = FALSE
        return env
    failures = lambda l: (False, True) if not quot(l) else (False,)
    for nm in ("And", "Or"):
        rows = []
        for n in (1, 2, 3):
            for ls in itertools.product(LEAVES if n < 3 else [LEAVES[0], LEAVES[1], LEAVES[4], LEAVES[2]], repeat=n):
                for fails in itertools.product(*[failures(l) for l in ls]):
                    env = parts(ls, fails)
                    check(rb(nm, ("L", tuple(A.part(i) for i in range(n)))), env, "%s of %s" % (nm, [sorted(l) for l in ls]))
        table(c, rid, nm, f, "derivative of %s" % nm, rows)
    for nm, cards in (("Star", [None]), ("Plus", [None]), ("Repeat", CARDS)):
        rows = []
        for k in cards:
            for l in LEAVES:
                for fl in failures(l):
                    env = parts([l], [fl])
                    check(rb(nm, A.part(0), *([card(k)] if k else [])), env, "%s%s of %s" % (nm, k or "", sorted(l)))
        table(c, rid, nm, f, "derivative of %s" % nm, rows)
    A.res = {}


# ---- matching a bag --------------------------------------------------------------------------------------------------------
def fn_like(P, owner, name, trait):
    """the implementation of `trait::name` for `owner`"""
    c = [f for f in P.fns.values() if f.name == name and f.id.startswith("<rbe::") and re.match(r"<rbe::(\w+::)*%s<.*> as .*%s>::%s$" % (owner, trait, name), f.id)]
    return c[0] if len(c) == 1 else None


def bagv(d):
    return ("a", BAG, "", (("L", tuple(("t", (("s", k), ("i", n))) for k, n in d.items() if n)),))


def match(c, A):
    P, I = A.P, A.I
    rid = "match"
    c.rule(rid, "Rbe::deriv_bag/match_bag_deriv: one derivative per occurrence in the bag, failing as soon as one fails, accepted iff what is left is nullable; RbeStruct::match_bag_interval: derivatives when a symbol "
                "repeats, otherwise no symbol of the bag outside the expression and one round in the interval; any result of the parts")
    f = anch(c, rid, fnid(P, "Rbe", "match_bag_deriv"), "Rbe::match_bag_deriv")
    if f:
        rows = []
        for bag in [(i, j) for i in range(3) for j in range(3)]:
            for limit in [(9, 9), (0, 9), (1, 9), (9, 0), (9, 1), (1, 1)]:
                for null in (True, False):
                    A.res = {("symbols", (0, 0)): ("a", "b")}
                    for i in range(4):
                        for j in range(4):
                            k = (i, j)
                            A.res[("deriv", k, "a")] = A.part((i + 1, j)) if i < limit[0] else rb("Fail", I.sym("in", "err"))
                            A.res[("deriv", k, "b")] = A.part((i, j + 1)) if j < limit[1] else rb("Fail", I.sym("in", "err"))
                            A.res[("is_nullable", k)] = ("b", null if k == bag else not null)
                            A.res[("is_fail", k)] = FALSE
                    G = {("d", A.part((i, j))): frozenset(x["n"] for x in P.variants(RBE) if x["n"] != "Fail") for i in range(4) for j in range(4)}
                    outs = A.call(f, A.part((0, 0)), bagv({"a": bag[0], "b": bag[1]}), FALSE, G=G)
                    want = "Ok" if bag[0] <= limit[0] and bag[1] <= limit[1] and null else "Err"
                    rows.append(("bag a%d b%d, derivatives defined up to %s, rest %snullable" % (bag + (limit, "" if null else "not ")), {o[0][2] if o[0][0] == "a" else I.show(o[0]) for o in outs or [(T,)]}, {want}))
        table(c, rid, "derivatives", f, "derivatives over a bag", rows)
    f = anch(c, rid, fnid(P, "RbeStruct", "match_bag_interval"), "RbeStruct::match_bag_interval")
    if f:
        rows = []
        for rep in (True, False):
            for d in (True, False):
                for ivl in ((0, 0), (0, 1), (1, 1), (1, INF), (2, INF), (0, INF), (2, 1)):
                    for bag in ({}, {"a": 1}, {"a": 2, "b": 1}, {"c": 1}, {"a": 1, "c": 1}):
                        A.res = {("interval", 0): iv(*ivl), ("match_bag_deriv", 0): Ok(UNIT) if d else Err(I.sym("in", "err")), ("symbol_cardinalities", 0): ("L", ())}
                        v = struct(P, STRUCT, rbe=A.part(0), symbols=("L", (("s", "a"), ("s", "b"))), has_repeats=("b", rep))
                        outs = A.call(f, v, bagv(bag), FALSE)
                        want = d if rep else "c" not in bag and ivl[0] <= 1 <= ivl[1]
                        rows.append(("repeats=%s, derivatives %s, interval %s, bag %s" % (rep, d, ivl, bag), {o[0][2] if o[0][0] == "a" else I.show(o[0]) for o in outs or [(T,)]}, {"Ok" if want else "Err"}))
        table(c, rid, "interval", f, "matching through intervals", rows)
    A.res = {}


def struct(P, adt, **kw):
    """struct value with the named fields; None if the fields are others"""
    a = P.adts.get(adt)
    fs = [x[0] for x in a["v"][0]["f"]] if a else []
    if not set(kw) <= set(fs):
        return T
    return ("a", adt, "", tuple(kw[n] for n in fs)) if set(fs) == set(kw) else T


def symbols_of(v, env):
    if v[0] == "y":
        return env.get(v, set())
    if v[2] == "Symbol":
        return {v[3][0][1]}
    if v[2] in ("And", "Or"):
        return set().union(*[symbols_of(x, env) for x in v[3][0][1]])
    return symbols_of(v[3][0], env) if v[2] in ("Star", "Plus", "Repeat") else set()


def building(c, A):
    P, I = A.P, A.I
    rid = "build"
    c.rule(rid, "RbeStruct constructors: the expression is the constructor applied to the parts, `symbols` are exactly theirs, and `has_repeats` is not false when a symbol occurs twice")
    env, senv, reps = {}, {}, {}

    def sub(i, syms, rep, l):
        p = A.part(i)
        env[p], senv[p] = l, set(syms)
        A.res[("symbols", i)] = tuple(syms)
        return struct(P, STRUCT, rbe=p, symbols=("L", tuple(("s", s) for s in syms)), has_repeats=("b", rep))

    def judge(rows, desc, f, args, want_lang, want_syms, must_rep):
        outs = A.call(f, *args)
        got = set()
        for o in outs or [(T,)]:
            d = fields(P, o[0])
            try:
                l = lang(d["rbe"], env)
                s = {x[1] for x in d["symbols"][1]}
                r = d["has_repeats"]
                got.add((tuple(sorted(l)), tuple(sorted(s)), "repeats not recorded" if must_rep and r != TRUE else "ok"))
            except (KeyError, IndexError, TypeError):
                got.add("not exact: " + I.show(o[0])[:150])
        rows.append((desc, got, {(tuple(sorted(want_lang)), tuple(sorted(want_syms)), "ok")}))
    LA, LB = frozenset([(0, 0), (1, 0)]), frozenset([(0, 1)])
    A.env = env
    f = anch(c, rid, fnid(P, "RbeStruct", "symbol"), "RbeStruct::symbol")
    if f:
        rows = []
        for k in CARDS:
            A.res = {}
            judge(rows, "symbol%s" % (k,), f, (("s", "a"), ("i", k[0]), mx(k[1])), lang(rb("Symbol", ("s", "a"), card(k)), {}), {"a"}, False)
        table(c, rid, "symbol", f, "RbeStruct::symbol", rows)
    f = anch(c, rid, fnid(P, "RbeStruct", "empty"), "RbeStruct::empty")
    if f:
        rows = []
        judge(rows, "empty", f, (), EPS, set(), False)
        table(c, rid, "empty", f, "RbeStruct::empty", rows)
    for nm, spec in (("opt", lambda l: l | EPS), ("plus", lambda l: power(l, (1, INF))), ("star", lambda l: power(l, (0, INF))), ("repeat", None)):
        f = anch(c, rid, fnid(P, "RbeStruct", nm), "RbeStruct::" + nm)
        if not f:
            continue
        rows = []
        for rep in (True, False):
            for l, syms in ((LA, ["a"]), (LB, ["b"]), (frozenset([(1, 1)]), ["a", "b"])):
                A.res = {}
                s = sub(0, syms, rep, l)
                if nm == "repeat":
                    for k in CARDS:
                        judge(rows, "repeat%s of %s" % (k, sorted(l)), f, (s, ("i", k[0]), mx(k[1])), power(l, k), syms, rep)
                else:
                    judge(rows, "%s of %s" % (nm, sorted(l)), f, (s,), spec(l), syms, rep)
        table(c, rid, nm, f, "RbeStruct::" + nm, rows)
    for nm in ("and", "or"):
        f = anch(c, rid, fnid(P, "RbeStruct", nm), "RbeStruct::" + nm)
        if not f:
            continue
        rows = []
        for n in (1, 2, 3):
            for combo in itertools.product([(["a"], LA), (["b"], LB), ([], EPS), (["a", "b"], frozenset([(1, 1)]))], repeat=n):
                for rr in itertools.product((False, True), repeat=n):
                    if sum(rr) > 1:
                        continue
                    A.res = {}
                    subs = [sub(i, sy, rr[i], l) for i, (sy, l) in enumerate(combo)]
                    allsyms = [s for sy, _ in combo for s in sy]
                    want = frozenset().union(*[l for _, l in combo]) if nm == "or" else EPS
                    if nm == "and":
                        for _, l in combo:
                            want = cat(want, l)
                    judge(rows, "%s of %s" % (nm, [(sy, r) for (sy, _), r in zip(combo, rr)]), f, (("L", tuple(subs)),), want, set(allsyms), any(rr) or len(set(allsyms)) < len(allsyms))
        table(c, rid, nm, f, "RbeStruct::" + nm, rows)
    # symbols of an expression
    f = anch(c, rid, fnid(P, "Rbe", "symbols"), "Rbe::symbols")
    if f:
        rows = []
        for variant, mk in (("Empty", lambda: rb("Empty")), ("Symbol", lambda: rb("Symbol", ("s", "a"), card((1, 1)))), ("Star", lambda: rb("Star", A.part(0))), ("Plus", lambda: rb("Plus", A.part(0))),
                            ("Repeat", lambda: rb("Repeat", A.part(0), card((1, 2)))), ("And", lambda: rb("And", ("L", (A.part(0), A.part(1))))), ("Or", lambda: rb("Or", ("L", (A.part(0), A.part(1)))))):
            for s0, s1 in itertools.product((["a"], ["a", "b"], []), repeat=2):
                A.res = {("symbols", 0): tuple(s0), ("symbols", 1): tuple(s1)}
                v = mk()
                g = A.one(f, v)
                want = symbols_of(v, {A.part(0): set(s0), A.part(1): set(s1)})
                rows.append(("%s of %s, %s" % (variant, s0, s1), sorted(x[1] for x in g[1]) if g and g[0] == "L" else g, sorted(want)))
        table(c, rid, "symbols", f, "symbols of an expression", rows)
    A.res = {}


# ---- feasibility -----------------------------------------------------------------------------------------------------------
def feasible(c, A):
    P, I = A.P, A.I
    rid = "feasible"
    c.rule(rid, "Rbe::feasible never refutes a bag that the expression accepts: fx, fi, once and zero hold whenever a bag between the bounds (once; in one or more rounds; a non-empty round; none) is accepted, "
                "per constructor, for every over-approximation of the parts")
    adt = [p for p in P.adts if p.startswith("rbe::") and p.endswith("::Feasibility")]
    if len(adt) != 1:
        c.ob(rid, "anchor/Feasibility", "-", False, "type Feasibility not found")
        return
    sums = lambda l: power(l, (1, INF))
    inb = lambda l, lo, hi: any(lo[0] <= i <= hi[0] and lo[1] <= j <= hi[1] for i, j in l)

    def must(nm, l, lo, hi, syms):
        """the observation must be true of an expression with these bags over these symbols"""
        p = lambda x: (x[0] if "a" in syms else 0, x[1] if "b" in syms else 0)
        lo, hi = p(lo), p(hi)
        if nm == "zero":
            return lo == (0, 0)
        if nm == "fx":
            return inb(l, lo, hi)
        if nm == "fi":
            return inb(sums(l), lo, hi)
        return inb(l, (0, 0), hi)          # once
    state = {}

    def h(I, site, name, callee, args, st):
        a = [I.deref(x, st) for x in args]
        m = name.rsplit("::", 1)[1]
        if len(a) > 1 and a[1][0] == "y" and I.tag(a[1])[0] == "part":
            l, syms = state["parts"][I.tag(a[1])[1]]
            if must(m, l, state["lo"], state["hi"], syms):
                return [(TRUE, st)]
            key = ("b", I.sym("over", m, a[1]))
            if key in st.G:
                return [(("b", st.G[key]), st)]
            out = []
            for b in (True, False):
                s = st.fork()
                s.G[key] = b
                out.append((("b", b), s))
            return out
        return None
    A.I.pol.handlers.insert(0, (re.compile(r"::(fx|fi|once|zero)$"), h))
    A.res = {}
    for nm in ("fx", "fi", "once", "zero"):
        f = anch(c, rid, fnid(P, "Feasibility", nm), "Feasibility::" + nm)
        if not f:
            continue
        rows = []
        bounds = [((0, 0), (0, 0)), ((0, 0), (1, 0)), ((0, 0), (2, 1)), ((1, 0), (2, 2)), ((1, 1), (2, 1)), ((0, 0), (0, 2)), ((2, 0), (2, 0))]

        def check(v, l, syms, desc, parts):
            for lo, hi in bounds:
                if not must(nm, l, lo, hi, syms):
                    continue
                state.update(parts=parts, lo=lo, hi=hi)
                mp = lambda d: ("L", tuple(("t", (("s", k), ("i", n))) for k, n in zip("ab", d) if n))
                self_ = struct(P, adt[0], lo=mp(lo), hi=mp(hi))
                outs = A.call(f, self_, v)
                got = {o[0] for o in outs or [(T,)]}
                rows.append(("%s between %s and %s" % (desc, lo, hi), "refuted" if got != {TRUE} else "feasible", "feasible"))
        for k in CARDS:
            for s in "ab":
                v = rb("Symbol", ("s", s), card(k))
                check(v, lang(v, {}), {s}, "%s%s" % (s, k), {})
        check(rb("Empty"), EPS, set(), "Empty", {})
        L0 = [(frozenset([(1, 0)]), {"a"}), (frozenset([(0, 0), (1, 0)]), {"a"}), (frozenset([(2, 0)]), {"a"}), (frozenset([(1, 0), (2, 0)]), {"a"}), (EPS, set()), (frozenset(), {"a"})]
        L1 = [(frozenset([(0, 1)]), {"b"}), (frozenset([(0, 0), (0, 1)]), {"b"}), (frozenset([(0, 2)]), {"b"}), (EPS, set())]
        for p0 in L0:
            for p1 in L1:
                parts = {0: p0, 1: p1}
                v2 = ("L", (A.part(0), A.part(1)))
                check(rb("And", v2), cat(p0[0], p1[0]), p0[1] | p1[1], "And of %s, %s" % (sorted(p0[0]), sorted(p1[0])), parts)
                check(rb("Or", v2), p0[0] | p1[0], p0[1] | p1[1], "Or of %s, %s" % (sorted(p0[0]), sorted(p1[0])), parts)
            check(rb("And", ("L", ())), EPS, set(), "And of nothing", {})
        for p0 in L0 + [(frozenset([(1, 1)]), {"a", "b"}), (frozenset([(1, 0), (0, 1)]), {"a", "b"}), (frozenset([(0, 0), (2, 1)]), {"a", "b"})]:
            parts = {0: p0}
            d = sorted(p0[0])
            check(rb("Star", A.part(0)), power(p0[0], (0, INF)), p0[1], "Star of %s" % d, parts)
            check(rb("Plus", A.part(0)), power(p0[0], (1, INF)), p0[1], "Plus of %s" % d, parts)
            for k in CARDS:
                check(rb("Repeat", A.part(0), card(k)), power(p0[0], k), p0[1], "Repeat%s of %s" % (k, d), parts)
        table(c, rid, nm, f, "Feasibility::" + nm, rows)
    A.I.pol.handlers.pop(0)


def relabel(v):
    """components 0, 1 as the symbol a, the others as b"""
    if v[0] == "a" and v[1] == "rbe::component::Component":
        return ("s", "a" if v[3][0][1] < 2 else "b")
    if v[0] == "a":
        return ("a", v[1], v[2], tuple(relabel(x) for x in v[3]))
    return ("L", tuple(relabel(x) for x in v[1])) if v[0] == "L" else v


# ---- tables of components --------------------------------------------------------------------------------------------------
PENDING, COND = "rbe::pending::Pending", "rbe::match_cond::MatchCond"


def pendv(d):
    """{(value, ref): keys}"""
    m = {}
    for (v, r), ks in d.items():
        m.setdefault(v, []).append(("t", (("s", r), ("L", tuple(("s", k) for k in ks)))))
    return ("a", PENDING, "", (("L", tuple(("t", (("s", v), ("L", tuple(rs)))) for v, rs in m.items())),))


def pending_of(v):
    """{(value, ref): frozenset(keys)} of a Pending value"""
    if v[0] != "a" or v[1] != PENDING or v[3][0][0] != "L":
        return None
    r = {}
    for it in v[3][0][1]:
        for jt in it[1][1][1]:
            r[(it[1][0][1], jt[1][0][1])] = frozenset(k[1] for k in jt[1][1][1])
    return r


def pendings(c, A):
    P = A.P
    rid = "pending"
    c.rule(rid, "Pending: merging keeps every (value, reference) of both sides and the keys of each; a new pair is present, without losing others; annotating a key reaches every pair; MatchCond::matches asks for every "
                "conjunct and a reference for itself")
    pairs = [{}, {("x", "S"): ["k"]}, {("x", "S"): ["k"], ("x", "R"): []}, {("y", "S"): ["l"]}, {("x", "S"): ["l"], ("y", "R"): ["k"]}]
    norm = lambda d: {k: frozenset(v) for k, v in d.items()}

    def after(f, d, *args):
        outs = A.call(f, ("p", -1, ()), *args, cells=(pendv(d),))
        vs = {o[1][0] for o in outs or [(T, (T,))]}
        return pending_of(vs.pop()) if len(vs) == 1 else None
    f = anch(c, rid, fnid(P, "Pending", "merge"), "Pending::merge")
    if f:
        rows = []
        for a in pairs:
            for b in pairs:
                want = norm(a)
                for k, v in norm(b).items():
                    want[k] = want.get(k, frozenset()) | v
                rows.append(("%s merged with %s" % (a, b), after(f, a, pendv(b)), want))
        table(c, rid, "merge", f, "Pending::merge", rows)
    f = anch(c, rid, fnid(P, "Pending", "insert"), "Pending::insert")
    if f:
        rows = []
        for a in pairs:
            for v, r in (("x", "S"), ("x", "Q"), ("z", "S")):
                want = norm(a)
                want.setdefault((v, r), frozenset())
                rows.append(("%s insert %s@%s" % (a, v, r), after(f, a, ("s", v), ("s", r)), want))
        table(c, rid, "insert", f, "Pending::insert", rows)
    f = anch(c, rid, fnid(P, "Pending", "annotate_key"), "Pending::annotate_key")
    if f:
        rows = [("%s annotated with n" % a, after(f, a, ("s", "n")), {k: v | {"n"} for k, v in norm(a).items()}) for a in pairs]
        table(c, rid, "annotate", f, "Pending::annotate_key", rows)
    f = anch(c, rid, fnid(P, "MatchCond", "matches"), "MatchCond::matches")
    if f:
        rows = []
        val, ctx = ("s", "x"), A.I.sym("in", "ctx")
        for s in (True, False):
            A.res = {("matches", 0): Ok(pendv({})) if s else Err(A.I.sym("in", "err"))}
            rows.append(("a condition that is %s" % s, verdict(A, f, ("a", COND, "Single", (A.part(0),)), val, ctx), ("Ok", {}) if s else ("Err",)))
        rows.append(("a reference", verdict(A, f, ("a", COND, "Ref", (("s", "S"),)), val, ctx), ("Ok", {("x", "S"): frozenset()})))
        opts = [None, {}, {("x", "S"): []}, {("x", "R"): []}]
        for n in (0, 1, 2, 3):
            for combo in itertools.product(opts, repeat=n):
                A.res = {("matches", i): Err(A.I.sym("in", "err")) if o is None else Ok(pendv(o)) for i, o in enumerate(combo)}
                want = ("Err",)
                if None not in combo:
                    w = {}
                    for o in combo:
                        w.update(norm(o))
                    want = ("Ok", w)
                rows.append(("And of %s" % (list(combo),), verdict(A, f, ("a", COND, "And", (("L", tuple(A.part(i) for i in range(n))),)), val, ctx), want))
        table(c, rid, "cond", f, "MatchCond::matches", rows)
    f = anch(c, rid, fnid(P, "MatchCond", "refs"), "MatchCond::refs")
    if f:
        rows = [("a condition", A.one(f, ("a", COND, "Single", (A.part(0),))), ("L", ())), ("a reference", A.one(f, ("a", COND, "Ref", (("s", "S"),))), ("L", (("s", "S"),)))]
        for n in (0, 1, 2):
            for combo in itertools.product([(), ("S",), ("R", "Q")], repeat=n):
                A.res = {("refs", i): ("L", tuple(("s", x) for x in o)) for i, o in enumerate(combo)}
                r = A.one(f, ("a", COND, "And", (("L", tuple(A.part(i) for i in range(n))),)))
                rows.append(("And of %s" % (list(combo),), sorted(x[1] for x in r[1]) if r and r[0] == "L" else r, sorted(x for o in combo for x in o)))
        table(c, rid, "refs", f, "MatchCond::refs", rows)
    A.res = {}


def verdict(A, f, *args):
    r = A.one(f, *args)
    if r is None or r[0] != "a":
        return r
    return ("Ok", pending_of(r[3][0])) if r[2] == "Ok" else ("Err",)


def tables(c, A):
    P, I = A.P, A.I
    rid = "table"
    c.rule(rid, "RbeTable: the candidates that `matches` yields as Ok are exactly the assignments of every value to a component of its key whose conditions all match and whose bag of components is accepted, each with "
                "all its pending references, for every outcome of the conditions and of the bag matcher (up to 3 values, 3 components, 2 keys); feasible_neighs counts the matching values of each component")
    TAB, IT, CP, EM = "rbe::rbe_table::RbeTable", "rbe::rbe_table::MatchTableIter", "rbe::rbe_table::IterCartesianProduct", "rbe::empty_iter::EmptyIter"
    new, add, matches = (anch(c, rid, fnid(P, "RbeTable", n), "RbeTable::" + n) for n in ("new", "add_component", "matches"))
    nxt = anch(c, rid, fn_like(P, "MatchTableIter", "next", "Iterator"), "MatchTableIter::next")
    with_rbe = anch(c, rid, fnid(P, "RbeTable", "with_rbe"), "RbeTable::with_rbe")
    feas = anch(c, rid, fnid(P, "RbeTable", "feasible_neighs"), "RbeTable::feasible_neighs")
    if not (new and add and matches and nxt and with_rbe and feas):
        return
    # conditions: cond i on value v; the bag matcher: any predicate of the bag
    world = {}

    def h_cond(I, site, name, callee, args, st):
        a = [I.deref(x, st) for x in args]
        if a and a[0][0] == "y" and I.tag(a[0])[0] == "cond":
            k, v = I.tag(a[0])[1], a[1][1]
            ok = world["cond"][(k, v)]
            return [(Ok(pendv({(v, "S%d" % k): []})) if ok else Err(I.sym("in", "err")), st)]
        return None

    def h_bag(I, site, name, callee, args, st):
        a = [I.deref(x, st) for x in args]
        d = fields(P, a[0])
        if "rbe" not in d or I.tag(d["rbe"])[0] != "in":
            return None
        b = fields(P, a[1]).get("bag", T)
        key = tuple(sorted((x[1][0][3][0][1], x[1][1][1]) for x in b[1])) if b[0] == "L" else None
        ok = world["bag"](key)
        return [(Ok(UNIT) if ok else Err(I.sym("in", "err")), st)]

    def h_null(I, site, name, callee, args, st):
        return [(("b", world["null"]), st)]

    def h_feas(I, site, name, callee, args, st):
        a = [I.deref(x, st) for x in args]
        world["hi"] = a[2]
        return [(TRUE, st)]
    I.pol.handlers[:0] = [(re.compile(r"MatchCond(::)?(<.*>)?::matches$"), h_cond), (re.compile(r"RbeStruct(::)?(<.*>)?::match_bag_interval$"), h_bag),
                          (re.compile(r"(RbeCond|RbeStruct)(::)?(<.*>)?::nullable$"), h_null), (re.compile(r"cnv_rbe$"), lambda I, site, name, callee, args, st: [(I.sym("in", "rbecond"), st)]),
                          (re.compile(r"RbeStruct(::)?(<.*>)?::feasible$"), h_feas)]
    KEYS = ["k", "k", "l"]

    def make(keys):
        t = A.one(new)
        if t is None:
            return None
        for i, k in enumerate(keys):
            outs = A.call(add, ("p", -1, ()), ("s", k), I.sym("cond", i), cells=(t,))
            vs = {o[1][0] for o in outs or ()}
            if len(vs) != 1:
                return None
            t = vs.pop()
        outs = A.call(with_rbe, ("p", -1, ()), struct(P, STRUCT, rbe=I.sym("in", "RBE"), symbols=("L", ()), has_repeats=FALSE), cells=(t,))
        vs = {o[1][0] for o in outs or ()}
        return vs.pop() if len(vs) == 1 else None

    def items(t, vals):
        outs = A.call(matches, t, ("L", tuple(("t", (("s", k), ("s", v), I.sym("in", "ctx"))) for k, v in vals)))
        vs = {o[0] for o in outs or ()}
        if len(vs) != 1:
            return None
        r = vs.pop()
        if r[0] != "a" or r[2] != "Ok":
            return r[2] if r[0] == "a" else None
        it, got, errs = r[3][0], [], 0
        for _ in range(40):
            outs = A.call(nxt, ("p", -1, ()), cells=(it,))
            vs = {(o[0], o[1][0]) for o in outs or ()}
            if len(vs) != 1:
                return None
            x, it = vs.pop()
            if x == NONE:
                return sorted(got, key=str)
            if x[0] != "a" or x[2] != "Some" or x[3][0][0] != "a":
                return None
            y = x[3][0]
            if y[2] == "Ok":
                p = pending_of(y[3][0])
                got.append(None if p is None else sorted((k, sorted(v)) for k, v in p.items()))
        return "endless"
    rows = {"assignments": [], "no-values": []}
    for keys in (["k"], ["k", "k"], ["k", "l"], ["k", "k", "l"], ["k", "k", "k"]):
        t = make(keys)
        if t is None:
            c.ob(rid, "anchor/table", add.id, False, "the table of components cannot be followed")
            break
        comps = lambda k: [i for i, x in enumerate(keys) if x == k]
        for vals in ([("k", "x")], [("l", "x")], [("k", "x"), ("k", "y")], [("k", "x"), ("l", "y")], [("l", "x"), ("k", "y"), ("k", "z")]):
            if keys == ["k", "k", "k"] and any(k == "l" for k, _ in vals):
                continue
            slots = [(i, v) for k, v in vals for i in comps(k)]
            for bits in itertools.product((True, False), repeat=len(slots)):
                world["cond"] = dict(zip(slots, bits))
                for bn, bp in (("any bag", lambda b: True), ("no bag", lambda b: False), ("bags without two of a component", lambda b: b is not None and all(n < 2 for _, n in b)),
                               ("bags with component 0", lambda b: b is not None and any(i == 0 for i, _ in b))):
                    world["bag"] = bp
                    world["null"] = True
                    want = []
                    for combo in itertools.product(*[comps(k) for k, _ in vals]):
                        if not all(world["cond"][(i, v)] for i, (_, v) in zip(combo, vals)):
                            continue
                        cnt = {}
                        for i in combo:
                            cnt[i] = cnt.get(i, 0) + 1
                        if bp(tuple(sorted(cnt.items()))):
                            want.append(sorted(((v, "S%d" % i), [k]) for i, (k, v) in zip(combo, vals)))
                    rows["assignments"].append(("components %s, values %s, conditions %s, %s" % (keys, vals, world["cond"], bn), items(t, vals), sorted(want, key=str)))
        for null in (True, False):
            world["null"] = null
            rows["no-values"].append(("components %s, no values, nullable %s" % (keys, null), items(t, []), [[]] if null else []))
    if rows["assignments"]:
        table(c, rid, "assignments", matches, "candidates", rows["assignments"])
        table(c, rid, "no-values", matches, "without values", rows["no-values"])
    # the expression shown for a node without values has the nullability of the expression itself
    conv = [x for x in P.fns.values() if x.kind == "fn" and x.name == "cnv_rbe"]
    nul = [x for x in P.fns.values() if x.kind in ("fn", "method") and x.name == "nullable" and plain(x.id).endswith("::RbeCond::nullable")]
    t = make(["k", "k", "l"])
    del I.pol.handlers[2:4]
    if len(conv) != 1 or len(nul) != 1 or t is None:
        c.ob(rid, "anchor/cnv_rbe", "-", False, "conversion of the expression of an empty candidate not found")
    else:
        comp = lambda i: ("a", "rbe::component::Component", "", (("i", i),))
        sy = lambda i, k: rb("Symbol", comp(i), card(k))
        exprs = [rb("Empty")] + [sy(0, k) for k in CARDS]
        for a in ((0, 1), (1, 1)):
            one = sy(0, a)
            exprs += [rb("Star", one), rb("Plus", one)] + [rb("Repeat", one, card(k)) for k in CARDS]
            for b in ((0, INF), (2, 3)):
                exprs += [rb(n, ("L", (one, sy(2, b)))) for n in ("And", "Or")]
        rows = []
        for e in exprs:
            g = A.one(conv[0], e, t)
            r = A.one(nul[0], g) if g is not None else None
            rows.append((I.show(e), r[1] if r is not None and r[0] == "b" else r, (0, 0) in lang(relabel(e), {})))
        table(c, rid, "empty", conv[0], "acceptance of no values", rows)
    fr = []
    fr = []
    for keys in (["k"], ["k", "k"], ["k", "k", "l"]):
        t = make(keys)
        if t is None:
            break
        comps = lambda k: [i for i, x in enumerate(keys) if x == k]
        for vals in ([("k", "x")], [("m", "x")], [("k", "x"), ("k", "y")], [("k", "x"), ("l", "y")]):
            slots = [(i, v) for k, v in vals for i in comps(k)]
            for bits in itertools.product((True, False), repeat=len(slots)):
                world["cond"] = dict(zip(slots, bits))
                world["hi"] = None
                A.call(feas, t, ("L", tuple(("t", (("s", k), ("s", v), I.sym("in", "ctx"))) for k, v in vals)))
                hi = world["hi"]
                want = {}
                for (i, v), ok in world["cond"].items():
                    if ok:
                        want[i] = want.get(i, 0) + 1
                try:
                    got = {x[1][0][3][0][1]: x[1][1][1] for x in hi[1] if x[1][1][1]}
                except (KeyError, IndexError, TypeError):
                    got = None
                # counting too many is allowed
                bad = got is None or any(got.get(i, 0) < n for i, n in want.items())
                fr.append(("components %s, values %s, conditions %s" % (keys, vals, world["cond"]), "counts %s" % got if bad else "enough", "enough"))
    table(c, rid, "counts", feas, "attainable counts of the components", fr)
    del I.pol.handlers[:3]


def run(c):
    A = Alg(c.prog)
    bounds(c, A)
    interval(c, A)
    nullable(c, A)
    deriv(c, A)
    match(c, A)
    building(c, A)
    feasible(c, A)
    pendings(c, A)
    tables(c, A)
    for r, n in (("bounds", 12), ("interval", 7), ("nullable", 2), ("deriv", 6), ("match", 2), ("build", 9), ("feasible", 4), ("pending", 5), ("table", 4)):
        c.floor(r, n, "tables")
