"""A small SPARQL reader: query texts produced by the analysed code (literal text mixed with abstract values) are parsed and
evaluated over the abstract terms of the SHACL frame. Anything outside the subset raises Bad (the obligation then fails closed)."""
import re
from .absint import State


class Bad(Exception):
    pass


TOK = re.compile(r'\s*(?:(\d+)|([A-Za-z][A-Za-z0-9_]*:[A-Za-z0-9_]*|[A-Za-z][A-Za-z0-9_]*:(?=\s)|:[A-Za-z0-9_]+)|([A-Za-z_][A-Za-z0-9_]*)|([?$][A-Za-z_]\w*)|(&&|\|\||<=|>=|!=|[{}().,;!*/^+|=])|(")|(<))')


def tokenize(parts):
    """-> list of ('num',n) ('pn',s) ('id',s) ('var',s) ('op',s) ('str',[parts]) ('iri',[parts]) ('val',abstract)"""
    toks = []
    # flatten into items: single chars or abstract values
    seq = []
    for p in parts:
        if p[0] == "s":
            seq.append(p[1])
        else:
            seq.append(p)
    i = 0
    buf = [(x, 0) for x in seq]
    pos = 0     # index in seq
    off = 0
    while pos < len(seq):
        x = seq[pos]
        if not isinstance(x, str):
            toks.append(("val", x))
            pos += 1
            off = 0
            continue
        rest = x[off:]
        if not rest.strip():
            pos += 1
            off = 0
            continue
        m = TOK.match(x, off)
        if not m:
            raise Bad("cannot read the query at %r" % rest[:30])
        if m.group(7) or m.group(6):
            close = ">" if m.group(7) else '"'
            if close == ">" and re.match(r"\s*<=?\s", x[off:]):
                mm = re.match(r"\s*(<=?)", x[off:])
                toks.append(("op", mm.group(1)))
                off += mm.end()
                continue
            o2 = m.end()
            if close == ">" and o2 >= len(x) and pos + 1 < len(seq) and not isinstance(seq[pos + 1], str):
                # '<' directly followed by a value: an IRI only when a '>' follows
                nxt = seq[pos + 2] if pos + 2 < len(seq) else ""
                if not (isinstance(nxt, str) and nxt.startswith(">")):
                    toks.append(("op", "<"))
                    off = o2
                    continue
            acc = []
            while True:
                if pos >= len(seq):
                    raise Bad("unterminated %s" % close)
                y = seq[pos]
                if not isinstance(y, str):
                    acc.append(y)
                    pos += 1
                    o2 = 0
                    continue
                j = y.find(close, o2)
                while close == '"' and j > 0 and y[j - 1] == "\\":
                    j = y.find(close, j + 1)
                if j < 0:
                    if y[o2:]:
                        acc.append(("s", y[o2:]))
                    pos += 1
                    o2 = 0
                    continue
                if y[o2:j]:
                    acc.append(("s", y[o2:j]))
                off = j + 1
                break
            toks.append(("iri" if close == ">" else "str", acc))
            continue
        if m.group(1):
            toks.append(("num", int(m.group(1))))
        elif m.group(2):
            toks.append(("pn", m.group(2)))
        elif m.group(3):
            toks.append(("id", m.group(3)))
        elif m.group(4):
            toks.append(("var", m.group(4)[1:]))
        else:
            toks.append(("op", m.group(5)))
        off = m.end()
    # '>' is lost to the IRI branch only when it stands alone
    return toks


TOK = re.compile(TOK.pattern.replace("[{}().,;!*/^+|=]", "[{}().,;!*/^+|=>]"))


def parse(parts):
    P = Parser(tokenize(parts))
    return P.query()


class Parser:
    def __init__(self, t):
        self.t, self.i, self.pfx = t, 0, {}

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def isid(self, s):
        x = self.peek()
        return x[0] == "id" and x[1].upper() == s

    def eat(self, op):
        if self.peek() != ("op", op):
            raise Bad("expected %s, found %s" % (op, self.peek()[1]))
        self.i += 1

    def query(self):
        while self.isid("PREFIX"):
            self.next()
            n = self.next()
            u = self.next()
            if n[0] != "pn" or u[0] != "iri" or len(u[1]) != 1:
                raise Bad("prefix declaration")
            self.pfx[n[1].rstrip(":")] = u[1][0][1]
        if self.isid("ASK"):
            self.next()
            if self.isid("WHERE"):
                self.next()
            g = self.group()
            r = ("ask", g)
        elif self.isid("SELECT"):
            self.next()
            distinct = self.isid("DISTINCT")
            if distinct:
                self.next()
            vs = []
            while self.peek()[0] == "var":
                vs.append(self.next()[1])
            if not vs and self.peek() == ("op", "*"):
                raise Bad("SELECT *")
            if self.isid("WHERE"):
                self.next()
            r = ("select", vs, self.group(), distinct)
        else:
            raise Bad("unknown query form")
        if self.peek()[0] != "eof":
            raise Bad("trailing text %s" % (self.peek(),))
        return r

    def group(self):
        self.eat("{")
        els = []
        while self.peek() != ("op", "}"):
            if self.isid("FILTER"):
                self.next()
                if self.isid("NOT") or self.isid("EXISTS"):
                    neg = self.isid("NOT")
                    if neg:
                        self.next()
                    if not self.isid("EXISTS"):
                        raise Bad("NOT without EXISTS")
                    self.next()
                    els.append(("exists", neg, self.group()))
                else:
                    els.append(("filter", self.primary()))
            elif self.isid("BIND"):
                self.next()
                self.eat("(")
                e = self.expr()
                if not self.isid("AS"):
                    raise Bad("BIND without AS")
                self.next()
                v = self.next()
                self.eat(")")
                els.append(("bind", e, v[1]))
            elif self.peek() == ("op", "{"):
                alts = [self.group()]
                while self.isid("UNION"):
                    self.next()
                    alts.append(self.group())
                els.append(("union", alts))
            elif self.peek()[0] == "eof":
                raise Bad("unterminated group")
            else:
                s = self.node()
                p = self.path()
                o = self.node()
                els.append(("triple", s, p, o))
            if self.peek() == ("op", "."):
                self.next()
        self.eat("}")
        return els

    def node(self):
        x = self.next()
        if x[0] == "var":
            return ("var", x[1])
        if x[0] == "val":
            return ("val", x[1])
        if x[0] == "iri":
            return ("iri", tuple(x[1]))
        if x[0] == "pn":
            return ("iri", (("s", self.expand(x[1])),))
        raise Bad("node %s" % (x,))

    def expand(self, pn):
        p, l = pn.split(":", 1)
        if p not in self.pfx:
            raise Bad("prefix " + p)
        return self.pfx[p] + l

    def path(self):
        a = [self.step()]
        while self.peek() == ("op", "/"):
            self.next()
            a.append(self.step())
        return a[0] if len(a) == 1 else ("seq", a)

    def step(self):
        x = self.peek()
        inv = False
        if x == ("op", "^"):
            self.next()
            inv = True
            x = self.peek()
        if x == ("op", "("):
            self.next()
            r = self.path()
            self.eat(")")
        elif x[0] == "id" and x[1] == "a":
            self.next()
            r = ("iri", (("s", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"),))
        else:
            r = self.node()
        if self.peek() in (("op", "*"), ("op", "+")):
            r = ("star" if self.next()[1] == "*" else "plus", r)
        return ("inv", r) if inv else r

    # ---- expressions
    def expr(self):
        a = self.conj()
        while self.peek() == ("op", "||"):
            self.next()
            a = ("or", a, self.conj())
        return a

    def conj(self):
        a = self.rel()
        while self.peek() == ("op", "&&"):
            self.next()
            a = ("and", a, self.rel())
        return a

    def rel(self):
        a = self.unary()
        x = self.peek()
        if x[0] == "op" and x[1] in ("<", "<=", ">", ">=", "=", "!="):
            self.next()
            return ("rel", x[1], a, self.unary())
        if x[0] == "id" and x[1].upper() in ("IN", "NOT"):
            neg = x[1].upper() == "NOT"
            self.next()
            if neg:
                if not self.isid("IN"):
                    raise Bad("NOT without IN")
                self.next()
            self.eat("(")
            xs = []
            while self.peek() != ("op", ")"):
                xs.append(self.expr())
                if self.peek() == ("op", ","):
                    self.next()
            self.eat(")")
            return ("in", neg, a, xs)
        return a

    def unary(self):
        if self.peek() == ("op", "!"):
            self.next()
            return ("not", self.unary())
        return self.primary()

    def primary(self):
        x = self.next()
        if x == ("op", "("):
            e = self.expr()
            self.eat(")")
            return e
        if x[0] == "id":
            u = x[1].upper()
            if u in ("TRUE", "FALSE"):
                return ("bool", u == "TRUE")
            self.eat("(")
            xs = []
            while self.peek() != ("op", ")"):
                xs.append(self.expr())
                if self.peek() == ("op", ","):
                    self.next()
            self.eat(")")
            return ("call", u, xs)
        if x[0] == "num":
            return ("num", x[1])
        if x[0] == "str":
            return ("str", tuple(x[1]))
        if x[0] == "var":
            return ("var", x[1])
        if x[0] == "val":
            return ("val", x[1])
        if x[0] == "iri":
            return ("iri", tuple(x[1]))
        if x[0] == "pn":
            return ("iri", (("s", self.expand(x[1])),))
        raise Bad("expression %s" % (x,))


OPS = {"<": "L", "<=": "LE", ">": "G", ">=": "GE", "=": "E", "!=": "LGN"}
E = "error"


class Eval:
    def __init__(self, F):
        self.F, self.I = F, F.I

    def term_of(self, v, st):
        """abstract value in the query text -> [(term | 'err' | None, state)]"""
        I, F = self.I, self.F
        t = I.tag(v) if v[0] == "y" else None
        if t and t[0] == "sparql":
            return [(F.term(t[1]), st)]
        if t and t[0] == "fmt" and t[1] == "display":
            x = t[3]
            if x[0] != "y":
                raise Bad("rendered value " + I.show(x))
            tg = I.tag(x)
            if tg[0] in ("int", "in") and t[2] in ("isize", "usize", "u32", "i32"):
                return [(("n", x), st)]
            out = []
            o = F.obj(x) if tg[0] != "obj" else x
            tm = F.term(o)
            from .shacl import OBJ
            for n, _, s in I.split_variant(o, OBJ, st):
                if n == "BlankNode":
                    raise Bad("the blank node %s is written into a query, where it is a variable" % I.show(x))
                out.append((tm, s))
            return out
        raise Bad("value in the query: " + I.show(v)[:120])

    def group(self, els, sols, st):
        """-> [(list of bindings | 'err', state)]"""
        res = [(sols, st)]
        for el in els:
            nxt = []
            for ss, s in res:
                if ss == "err":
                    nxt.append((ss, s))
                    continue
                nxt.extend(self.element(el, ss, s))
            res = nxt
        return res

    def element(self, el, sols, st):
        k = el[0]
        acc = [([], st)]
        for b in sols:
            nx = []
            for done, s in acc:
                if done == "err":
                    nx.append((done, s))
                    continue
                if k == "filter":
                    for v, s2 in self.ev(el[1], b, s):
                        nx.append((done + ([b] if v is True else []), s2))
                elif k == "bind":
                    for v, s2 in self.ev(el[1], b, s):
                        b2 = dict(b)
                        if v != E:
                            b2[el[2]] = v
                        nx.append((done + [b2], s2))
                elif k == "triple":
                    for bs, s2 in self.triple(el, b, s):
                        nx.append(("err" if bs == "err" else done + bs, s2))
                elif k == "exists":
                    for bs, s2 in self.group(el[2], [b], s):
                        nx.append(("err" if bs == "err" else done + ([b] if bool(bs) != el[1] else []), s2))
                else:
                    raise Bad(k)
            acc = nx
        return acc

    def nodeval(self, n, b, st):
        if n[0] == "var":
            return [(b.get(n[1]), st)]
        if n[0] == "val":
            return self.term_of(n[1], st)
        if n[0] == "iri":
            return [(("iri", self.iriname(n[1])), st)]
        raise Bad("node")

    def iriname(self, parts):
        if len(parts) == 1 and parts[0][0] == "s":
            return parts[0][1]
        if len(parts) == 1:
            t = self.I.tag(parts[0])
            if t and t[0] == "fmt" and t[1] == "display":
                return t[3]
            if t and t[0] == "str":
                return t[1]
            return parts[0]
        raise Bad("IRI")

    def triple(self, el, b, st):
        _, s, p, o = el
        out = []
        for sv, s1 in self.nodeval(s, b, st):
            for ov, s2 in self.nodeval(o, b, s1):
                if p[0] != "iri":
                    if p[0] == "var":
                        raise_if = None
                        out.extend(self.anypred(p[1], sv, o, ov, b, s2))
                        continue
                    out.extend(self.F.path_query(self, p, sv, ov, o, b, s2, s))
                    continue
                if sv is None:
                    if s == o:
                        raise Bad("the same variable as subject and object")
                    bs = []
                    for (ss, q), vals in sorted(self.F.edges.items(), key=str):
                        if q == self.predkey(self.iriname(p[1])):
                            for x in vals:
                                if ov is None:
                                    bs.append(dict(b, **{s[1]: ss, o[1]: x}))
                                elif self.F.same_const(x, ov):
                                    bs.append(dict(b, **{s[1]: ss}))
                    out.append((bs, s2))
                    continue
                from .shacl import OBJ
                # a literal subject is a syntax error
                I, F = self.I, self.F
                for n, _, s3 in I.split_variant(F.obj(sv), OBJ, s2):
                    if n == "Literal":
                        out.append(("err", s3))
                        continue
                    vals = F.triples(sv, self.predkey(self.iriname(p[1])))
                    if ov is None:
                        out.append(([dict(b, **{o[1]: x}) for x in vals], s3))
                    else:
                        out.extend(self.anyeq(ov, vals, b, s3))
        return out

    def anypred(self, var, sv, o, ov, b, st):
        from .shacl import OBJ
        I, F = self.I, self.F
        if ov is not None or sv is None:
            raise Bad("pattern")
        out = []
        for n, _, s3 in I.split_variant(F.obj(sv), OBJ, st):
            if n == "Literal":
                out.append(("err", s3))
                continue
            bs = []
            for (ss, p), os in sorted(F.edges.items(), key=str):
                if ss == sv:
                    for x in os:
                        bs.append(dict(b, **{var: F.predterm(p), o[1]: x}))
            out.append((bs, s3))
        return out

    def predkey(self, n):
        return self.F.predname(n) if not isinstance(n, str) else n

    def anyeq(self, ov, vals, b, st):
        I = self.I
        res = [(False, st)]
        for x in vals:
            nx = []
            for hit, s in res:
                if hit:
                    nx.append((True, s))
                    continue
                for v, s2 in I.split_bool(I.compare("Eq", ov, x, s), s):
                    nx.append((v, s2))
            res = nx
        return [([b] if hit else [], s) for hit, s in res]

    def ev(self, e, b, st):
        """[(True | False | 'error' | value, state)]"""
        I, F = self.I, self.F
        k = e[0]
        if k == "bool":
            return [(e[1], st)]
        if k == "num":
            return [(("n", ("i", e[1])), st)]
        if k == "var":
            return [(b.get(e[1], E), st)]
        if k == "val":
            return self.term_of(e[1], st)
        if k == "iri":
            return [(("iri", self.iriname(e[1])), st)]
        if k == "str":
            return [(("str", e[1]), st)]
        if k == "not":
            return [(E if v not in (True, False) else (not v), s) for v, s in self.ev(e[1], b, st)]
        if k in ("and", "or"):
            out = []
            for v, s in self.ev(e[1], b, st):
                for w, s2 in self.ev(e[2], b, s):
                    dom = (k == "or")
                    if dom in (v, w):
                        out.append((dom, s2))
                    elif E in (v, w):
                        out.append((E, s2))
                    else:
                        out.append((not dom, s2))
            return out
        if k == "rel":
            out = []
            for v, s in self.ev(e[2], b, st):
                for w, s2 in self.ev(e[3], b, s):
                    if v == E or w == E:
                        out.append((E, s2))
                    else:
                        out.extend(self.rel(e[1], v, w, s2))
            return out
        if k == "in":
            res = []
            for v, s in self.ev(e[2], b, st):
                r = [(False, s)]
                for x in e[3]:
                    nx = []
                    for hit, s1 in r:
                        if hit:
                            nx.append((True, s1))
                            continue
                        for w, s2 in self.ev(x, b, s1):
                            nx.extend(self.same(v, w, s2))
                    r = nx
                res += [((not hit) if e[1] else hit, s1) for hit, s1 in r]
            return res
        if k == "call":
            return self.call(e[1], e[2], b, st)
        raise Bad(k)

    def same(self, v, w, st):
        I = self.I
        pv, pw = self.F.preds(v), self.F.preds(w)
        if pv is not None and pw is not None:
            return [(pv == pw, st)]
        raise Bad("IN on other terms")

    def rel(self, op, v, w, st):
        I, F = self.I, self.F
        isn = lambda x: isinstance(x, tuple) and x[0] == "n"
        if isn(v) and isn(w):
            out = []
            for val, s in I.split_bool(I.compare({"<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge", "=": "Eq", "!=": "Ne"}[op], v[1], w[1], st), st):
                out.append((val, s))
            return out
        if isinstance(v, tuple) and v[0] == "y" and isinstance(w, tuple) and w[0] == "y":
            a, c = F.ordval(v), F.ordval(w)
            out = []
            if op in ("<", "<=", ">", ">="):
                # only literals are ordered, anything else is a type error
                from .shacl import OBJ
                for x in (v, w):
                    if I.tag(x)[0] == "term":
                        continue            # the literal bound of the constraint
                    keep = None
                    for n, _, s in I.split_variant(F.obj(x), OBJ, st):
                        if n == "Literal":
                            keep = s
                        else:
                            out.append((E, s))
                    if keep is None:
                        return out
                    st = keep
            s0 = I.ord_set(a, c, st, True)
            for o in sorted(s0):
                n = st.fork()
                I.set_ord(a, c, frozenset(o), n)
                if o == "N":
                    out.append((E, n))
                else:
                    out.append((o in OPS[op], n))
            return out
        raise Bad("comparison of %s and %s" % (v, w))

    def call(self, f, xs, b, st):
        I, F = self.I, self.F
        from .shacl import OBJ
        if f == "COALESCE":
            res = [(E, st)]
            for x in xs:
                nx = []
                for v, s in res:
                    if v != E:
                        nx.append((v, s))
                    else:
                        nx.extend(self.ev(x, b, s))
                res = nx
            return res
        if f in ("ISIRI", "ISURI", "ISBLANK", "ISLITERAL") and len(xs) == 1:
            want = {"ISBLANK": "BlankNode", "ISLITERAL": "Literal"}.get(f, "Iri")
            out = []
            for v, s in self.ev(xs[0], b, st):
                if not (isinstance(v, tuple) and v[0] == "y"):
                    raise Bad(f)
                for n, _, s2 in I.split_variant(F.obj(v), OBJ, s):
                    out.append((n == want, s2))
            return out
        if f == "STR" and len(xs) == 1:
            return [(("text", v), s) for v, s in self.ev(xs[0], b, st)]
        if f == "STRLEN" and len(xs) == 1:
            return [(("n", I.sym("strlen", I.sym("text", v[1]))), s) for v, s in self.ev(xs[0], b, st) if self.need(v, "text")]
        if f == "REGEX" and len(xs) in (2, 3):
            out = []
            for v, s in self.ev(xs[0], b, st):
                self.need(v, "text")
                pat = tuple(xs[1][1]) if xs[1][0] == "str" else None
                fl = tuple(xs[2][1]) if len(xs) == 3 and xs[2][0] == "str" else None
                if pat is None or (len(xs) == 3 and fl is None):
                    raise Bad("REGEX")
                out.extend(F.regex(self, v[1], pat, fl, s))
            return out
        raise Bad("function " + f)

    def need(self, v, k):
        if not (isinstance(v, tuple) and v[0] == k):
            raise Bad("expected " + k)
        return True
