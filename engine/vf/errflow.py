"""Error flow: on every path on which a fallible operation failed, the enclosing function must report it.

Modular: each body in scope is analysed alone (closures and std combinators are followed, other functions are
opaque), with every call whose result is a `Result<_, E>` (E relevant) split into its Ok and Err outcomes. On the
Err outcome a pending mark is kept until the function returns; the obligation is that the returned value is an
`Err`, or carries the error (mentions it), or the error was stored in an out-parameter. By induction over the call
tree an error at any leaf reaches the outermost caller if every obligation on the way holds.
"""
from .absint import *
from .absint import Policy, Interp, run, State
from . import natives

FMT_TYPES = ("core::fmt::Error", "core::convert::Infallible", "!", "std::sync::poison::PoisonError", "std::thread::local::AccessError")


def result_err(prog, t, crate):
    """error type (dict) if t is a Result, else None; looks through Poll<>"""
    if t.get("k") == "adt" and t["adt"] == POLL:
        t = prog.ty(crate, t["a"][0])
    if t.get("k") == "alias":
        return None
    if t.get("k") == "adt" and t["adt"] == RES:
        return prog.ty(crate, t["a"][1]) if len(t["a"]) > 1 else {"s": "?"}
    return None


class ErrPolicy(Policy):
    per_fn = 20000
    budget = 200000
    inline_display = False
    forget = True
    int_cap = 1
    widen_at = 60

    def precious(self, I, v):
        if v[0] == "a" and v[1] in (RES, POLL, CF):
            return True
        return I.mentions(v, lambda q: q[0] == "c" or (q[0] == "a" and q[1].startswith("vmodels")) or q[0] == "y" and I.syms[q[1]][0] == "err")

    def coarse(self, I, v):
        if is_err(I, v, {}) or I.mentions(v, lambda q: q[0] == "y" and I.syms[q[1]][0] == "err"):
            return v
        return I.sym("item")

    def __init__(self, prog, scope, ignore_err=None, ignore_call=None, neutral=None):
        self.prog = prog
        self.scope = scope
        self.ignore_err = ignore_err or (lambda e, site, name: False)
        self.ignore_call = ignore_call or (lambda name, site: False)
        self.neutral = neutral or (lambda name: False)
        self.sites = {}

    def inline(self, fn):
        return fn.kind == "closure" or fn.crate.startswith("vmodels") or fn.kind == "coroutine"

    def keep(self, I, key, val):
        return key[0] == "d" and val == frozenset(["Err"])

    def must_visit(self, I, x):
        return is_err(I, x, {})

    def on_purge(self, I, key, st):
        if key[0] == "d" and st.G[key] == frozenset(["Err"]):
            st.G[("pend", key[1])] = True

    def on_call(self, I, site, name, callee, args, st):
        n = natives.norm(callee[1] if callee[0] == 'f' else name)
        if n == "core::iter::traits::iterator::Iterator::flatten" and callee[4]:
            v = I.deref(args[0], st)
            t = self.prog.ty(*callee[4][0])
            if v[0] in ("y", "it") and "Item = core::result::Result<" in t["s"]:
                ev = I.sym("err", "flatten of an iterator of results", I.ctxid(site))
                self.sites[ev[1]] = ("flatten of an iterator of results", site.fn, site.line, t["s"])
                ns = st.fork()
                ns.G[("pend", ev)] = True
                return [(v, st), (v, ns)]
        if not n.endswith("::from_iter") and n.startswith(("core::result::Result::", "core::option::Option::", "core::iter::", "core::ops::try_trait", "core::convert::", "itertools::")) \
                or n in natives.FORCE or n.startswith("core::clone::"):
            return None
        if callee[0] == "c":
            return None if len(callee) <= 3 else None
        p = callee[1]
        if p.startswith("core::ops::function::Fn") and args:
            f = I.deref(args[0], st)
            if f[0] in ("c", "f"):
                return None
        poll = n == "core::future::future::Future::poll"
        if poll:
            v = I.deref(args[0], st)
            if v[0] == "c":
                return None
        t = None
        d = site.fn.bb[site.bb]["t"]
        if d[0] == "call" and len(d[3]) == 1:
            t = site.fn.local_ty(d[3][0])
            cr = site.fn.crate
        if t is None or t.get("k") == "param" or result_err(self.prog, t, cr) is None:
            b = self.prog.fns.get(name)
            if b is not None:
                t, cr = b.ret_ty(), b.crate
            elif t is None:
                t, cr = {}, site.fn.crate
        et = result_err(self.prog, t, cr)
        # a helper that is handed a failed result (an error handler) is followed
        b = self.prog.fns.get(name)
        if b is not None and b.kind in ("fn", "method") and not b.crate.startswith("vmodels") and len(site.ctx) < 3 and \
                any(is_err(I, I.deref(a, st), st.G) for a in args):
            from .absint import Frame
            r = I.inline(b, args, st, site, Frame(site.fn, site.ctx, (), set()), callee[4] if callee[0] == "f" else (), site.fn.crate)
            if r:
                return r
        # closures and lazy adaptors handed to code that is not analysed: it may run them
        if (self.prog.fns.get(name) is not None or callee[0] == "f") and natives.lookup(callee[1]) is None and \
                natives.model(callee[1], name, I, args, st, callee) is None and n not in natives.HYBRID:
            b = self.prog.fns.get(name)
            if b is None or not self.inline(b):
                res = self.drive(I, site, args, st)
                if res is not None:
                    out = []
                    for s in res:
                        r = self.fork(I, site, name, callee, args, s, et, n, poll) if et is not None else None
                        out += r if r is not None else I.opaque(name, callee, args, s, site)
                    return out
        if et is None:
            pend = [k[1] for k in st.G if k[0] == "pend"]
            if pend and self.prog.fns.get(name) is not None and natives.lookup(name) is None and \
                    natives.model(callee[1] if callee[0] == "f" else name, name, I, args, st, callee) is None and n not in natives.HYBRID and \
                    any(a[0] == "p" for a in args) and any(I.mentions(I.deref(a, st), lambda q: q in pend) for a in args):
                ns = st.fork()
                self.havoc(I, site, name, args, ns)
                y = I.sym("r", name, I.ctxid(site), site.ctx)
                I.purge(ns, y)
                return [(y, ns)]
            return None
        return self.fork(I, site, name, callee, args, st, et, n, poll)

    def drive(self, I, site, args, st):
        todo = [(i, I.deref(a, st)) for i, a in enumerate(args)]
        todo = [(i, v) for i, v in todo if v[0] == "c" and len(v) <= 3 or (v[0] == "a" and v[1].startswith("vmodels::"))]
        if not todo:
            return None
        from .absint import Frame
        fr = Frame(site.fn, site.ctx, (), set())
        sts = [st]
        for i, v in todo:
            nxt = []
            for s in sts:
                if v[0] == "c":
                    b = self.prog.fns.get(v[1])
                    if b is None:
                        nxt.append(s)
                        continue
                    targs = [I.sym("carg", v[1], j) for j in range(b.argc - 1)]
                    r = I.call_closure(args[i] if args[i][0] == "p" else v, v, targs, s, site, fr)
                else:
                    mf = self.prog.fns["vmodels::m_iter_collect_seq"]
                    r = I.inline(mf, [v], s, site, fr, (), mf.crate) or []
                nxt.append(s)
                for rv, s2 in r:
                    # a result handed back to the driving code is its business
                    if is_err(I, rv, s2.G):
                        continue
                    new = [k[1] for k in s2.G if k[0] == "pend" and k not in s.G]
                    if new and all(I.mentions(rv, lambda q, e=e: q == e) for e in new):
                        continue
                    nxt.append(s2)
            sts = nxt
        return sts

    def fork(self, I, site, name, callee, args, st, et, n, poll):
        if et["s"].startswith(FMT_TYPES):
            return None
        if self.ignore_err(et, site, name) or self.ignore_call(name, site):
            if I.ctor(name, args) is not None:
                return None
            # an answer, not a failure: both outcomes are explored, nothing is owed
            okv, nov = I.sym("ok", name, I.ctxid(site), site.ctx), I.sym("no", name, I.ctxid(site))
            ok, er = st.fork(), st.fork()
            for s, v in ((ok, okv), (er, nov)):
                self.havoc(I, site, name, args, s)
                I.purge(s, v)
            R = (lambda v: ("a", POLL, "Ready", (v,))) if poll else (lambda v: v)
            return [(R(Ok(okv)), ok), (R(Err(nov)), er)]
        ctor = I.ctor(name, args)
        if ctor is not None:
            return None
        if args and self.prog.fns.get(name) is None:
            a0 = I.deref(args[0], st)
            if is_err(I, a0, st.G):
                # an Err handed to a library wrapper (Context::context, ...) is handed on
                return [(Err(I.sym("wrapped", name, a0)), st)]
            if a0[0] == "a" and a0[1] == RES and a0[2] == "Ok":
                return [(a0, st)]
        if any(k[0] == "pend" for k in st.G):
            # single-fault analysis: one operation fails, the others succeed
            # a result built from the pending error carries it
            pend = [k[1] for k in st.G if k[0] == "pend"]
            carry = tuple(sorted((e for e in pend if any(I.mentions(I.deref(a, st), lambda q: q == e) for a in args)), key=str))
            y = I.sym("ok", name, I.ctxid(site), site.ctx, *carry)
            ns = st.fork()
            self.havoc(I, site, name, args, ns)
            I.purge(ns, y)
            return [(("a", POLL, "Ready", (Ok(y),)) if poll else Ok(y), ns)]
        ev = I.sym("err", name, I.ctxid(site))
        okv = I.sym("ok", name, I.ctxid(site), site.ctx)
        self.sites[ev[1]] = (name, site.fn, site.line, et["s"])
        ok, er = st.fork(), st.fork()
        for s in (ok, er):
            self.havoc(I, site, name, args, s)
        I.purge(ok, okv)
        er.G[("pend", ev)] = True
        if poll:
            R = lambda v: ("a", POLL, "Ready", (v,))
        else:
            R = lambda v: v
        return [(R(Ok(okv)), ok), (R(Err(ev)), er)]


    def havoc(self, I, site, name, args, s):
        pend = [k[1] for k in s.G if k[0] == "pend"]
        carry = [e for e in pend if any(I.mentions(I.deref(a, s), lambda q, e=e: q == e) for a in args)]
        for a in args:
            if a[0] == "p":
                old = I.deref(a, s)
                if old[0] != "c":
                    y = I.sym("mut", name, site.key(), str(a[1:]))
                    # keep accumulated errors visible
                    if I.mentions(old, lambda q: q[0] == "y" and I.syms[q[1]][0] == "err"):
                        y = I.sym("mut2", y, I._noptr(old))
                    elif carry:
                        # the error is handed over together with this out-parameter
                        y = I.sym("mut2", y, *sorted(carry, key=str))
                    I.purge(s, y)
                    I.write_cell(a[1], a[2], y, s)


class Swallow:
    def __init__(self, fn, callee, line, site_fn, kind, err):
        self.fn, self.callee, self.line, self.site_fn, self.kind, self.err = fn, callee, line, site_fn, kind, err


def analyse(prog, fn, pol):
    """-> (list of Swallow, number of fallible sites, undecided)"""
    I = Interp(prog, pol)
    pol.sites = {}
    I, outs = run(prog, fn, policy=pol, interp=I)
    if outs is None:
        outs = []
    sw = {}
    for ret, cells, G in outs:
        pend = [k[1] for k in G if k[0] == "pend"]
        din = [k[1] for k in G if k[0] == "d" and G[k] == frozenset(["Err"])]
        if not pend and not din:
            continue
        r = ret
        if r[0] == "a" and r[1] == POLL and r[3]:
            r = r[3][0]
        if is_err(I, r, G):
            continue
        for e in pend + din:
            def m(q, e=e):
                return q == e
            if I.mentions(r, m) or any(I.mentions(c, m) for c in cells):
                continue
            if self_recovered(I, r, e, pol):
                continue
            if e[0] == "y" and I.syms[e[1]][0] == "err":
                nm, sf, line, et = pol.sites.get(e[1], ("?", fn, 0, "?"))
            else:
                nm, sf, line, et = I.show(e), fn, fn.line, "?"
            sw.setdefault((nm, sf.id), Swallow(fn, nm, line, sf, "T" if r[0] == "T" else I.show(r)[:120], et))
    return list(sw.values()), len(pol.sites), I


def is_err(I, r, G):
    if r[0] == "a" and r[1] == RES and r[2] == "Err":
        return True
    if r[0] == "a" and r[1] == OPT and r[2] == "Some" and r[3]:
        return is_err(I, r[3][0], G)
    if r[0] == "y" and G.get(("d", r)) == frozenset(["Err"]):
        return True
    return False


def self_recovered(I, r, e, pol):
    """the returned value is the Ok result of a later attempt of the same operation, or an error status"""
    if e[0] == "y" and I.syms[e[1]][0] == "err":
        nm = I.syms[e[1]][1]
        if I.mentions(r, lambda q: q[0] == "y" and I.syms[q[1]][0] == "ok" and I.syms[q[1]][1] == nm):
            return True
    return I.mentions(r, lambda q: q[0] == "y" and I.syms[q[1]][0] == "const" and
                      any("StatusCode::" in str(x) and not str(x).endswith(("OK", "ACCEPTED", "NO_CONTENT", "CREATED")) for x in I.syms[q[1]][1:]))
