"""P08: which HTTP requests reach the MCP service. The router that run_mcp_http serves is interpreted symbolically into its routes and the
layers around each; every layer is then decided on a grid of request headers (constants propagated through the guard's own code)."""
import ipaddress, re
from vf import absint
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.table import *

TITLE = "A request from a foreign web origin or of an unknown protocol version is refused"
MW = "rudof_mcp::server::streamable_http::middleware"
VERSIONS = ("2025-11-25", "2025-06-18", "2025-03-26")

# (origin, host that a URL parser finds, or None when it is no origin at all)
ORIGINS = [("http://localhost", "localhost"), ("https://localhost:8080", "localhost"), ("http://127.0.0.1", "127.0.0.1"), ("http://127.9.8.7:3000", "127.9.8.7"),
           ("http://[::1]", "::1"), ("https://[::1]:8080", "::1"), ("http://[::2]", "::2"), ("http://[2001:db8::7]:80", "2001:db8::7"),
           ("http://192.168.1.1", "192.168.1.1"), ("https://192.168.1.254:99", "192.168.1.254"), ("http://192.168.2.1", "192.168.2.1"), ("http://10.255.255.255", "10.255.255.255"),
           ("http://11.0.0.1", "11.0.0.1"), ("http://128.0.0.1", "128.0.0.1"), ("http://126.255.255.255", "126.255.255.255"), ("http://0.0.0.0", "0.0.0.0"),
           ("https://example.com", "example.com"), ("http://example.com:80", "example.com"), ("http://localhost.example.com", "localhost.example.com"),
           ("http://example.localhost.com", "example.localhost.com"), ("http://notlocalhost", "notlocalhost"), ("http://127.0.0.1.example.com", "127.0.0.1.example.com"),
           ("http://127.0.0.1.example.com:80", "127.0.0.1.example.com"), ("http://example.com:127", "example.com"), ("http://evil.com/[::1]", "evil.com"),
           ("http://evil.com?[::1]", "evil.com"), ("http://evil.com#[::1]", "evil.com"), ("http://evil.com/localhost", "evil.com"), ("http://evil.com/127.0.0.1", "evil.com"),
           ("http://evil.com/http://localhost", "evil.com"), ("https://http://localhost", "http"), ("http://localhost@evil.com", "evil.com"), ("http://127.0.0.1@evil.com", "evil.com"),
           ("http://localhost:80@evil.com", "evil.com"), ("http://[::1]@evil.com", "evil.com"), ("http://[::1]:80@evil.com", "evil.com"), ("http://[::1]evil.com", None),
           ("http://[::1].evil.com", None), ("http://evil[::1]", None), ("null", None), ("", None), ("http://", None), ("http://:80", None), ("http://[]", None), ("http://[", None),
           ("http://]", None), ("http://evil.com:80/[127.0.0.1]", "evil.com"), ("https://evil.com:80[::1]", None), ("http://xn--localhost", "xn--localhost"),
           ("http://localhosts", "localhosts"), ("http://local", "local"), ("http://1270.0.0.1", "1270.0.0.1"), ("http://[::ffff:8.8.8.8]", "::ffff:8.8.8.8")]
# names around `localhost`, addresses at the edges of the networks, names made of addresses
for h in ("evil.localhost", "a.b.localhost", "localhost.", "localhost.localdomain", "xlocalhost", "localhost1", "localhost-evil.com", "my-localhost", "localhost.evil.com", "localhostt", "ocalhost", "localhos", "127.0.0.1.localhost",
          "example.com", "com", "evil127.0.0.1", "127.0.0.1evil", "127.0.0.1-x.com", "x.127.0.0.1", "127.0.0", "127.0.0.1.1", "127.0.0.256", "127", "a127.0.0.1", "1.127.0.0.1", "ip6-localhost", "localhost.1", "10.evil.com", "192.168.1.evil.com",
          "192.168.1", "10.0.0", "evil10.0.0.1", "0.0.0.0.0", "loopback", "127.0.0.1.", "evil.127.0.0.1.com"):
    ORIGINS += [("http://" + h, h), ("https://%s:3000" % h, h)]
for h in ("127.0.0.0", "127.255.255.255", "126.0.0.1", "128.0.0.0", "192.168.0.255", "192.168.1.0", "192.168.1.255", "192.168.2.0", "192.167.1.1", "193.168.1.1", "10.0.0.0", "10.1.2.3", "9.255.255.255", "11.0.0.0", "127.0.0.2", "255.255.255.255",
          "1.0.0.127", "1.1.168.192"):
    ORIGINS += [("https://" + h, h), ("http://%s:8000" % h, h)]
for h in ("::", "::2", "::1:1", "1::1", "::0:1", "2001:db8::", "2001:db8:ffff:ffff:ffff:ffff:ffff:ffff", "2001:db7:ffff::1", "2001:db9::", "2001:db8:1::1", "fe80::1", "::1.evil.com", "localhost.evil.com", "1", ":1", "127.0.0.1.evil.com", "evil.com"):
    ORIGINS += [("https://[%s]" % h, h), ("http://[%s]:8000" % h, h)]
for pre in ("http://evil.com/", "http://evil.com?", "http://evil.com#", "http://evil.com:80/", "http://evil.com/x?y#", "http://evil.com:80?", "http://evil.com/@", "http://evil.com?@"):
    ORIGINS += [(pre + x, "evil.com") for x in ("localhost", "127.0.0.1", "[::1]", "http://localhost", "https://127.0.0.1:80", "@localhost", ":80@127.0.0.1", "[::1]:80", "//localhost")]
ORIGINS = list(dict.fromkeys(ORIGINS))
NETS = [("localhost only", None, ("127.0.0.0/8", "::1/128")), ("two networks", ("192.168.1.0/24", "10.0.0.0/8"), None),
        ("one address", ("127.0.0.1",), None), ("an IPv6 network", ("2001:db8::/32",), None), ("one IPv6 address", ("::1",), None), ("everything v4", ("0.0.0.0/0",), None)]


def in_nets(host, nets):
    try:
        ip = ipaddress.ip_address(host)
    except ValueError:
        return False
    for n in nets:
        net = ipaddress.ip_network(n, strict=False)
        if net.version == ip.version and ip in net:
            return True
    return False


def allowed(host, nets):
    if host is None:
        return False
    if host == "localhost":
        return in_nets("127.0.0.1", nets) or in_nets("::1", nets)
    return in_nets(host, nets)


class M:
    def __init__(self, P):
        self.P, self.hdr, self.fwd = P, {}, 0
        hs = [(r"IpNetwork as core::str::traits::FromStr>::from_str$|IpNetwork::from_str$", self.h_net), (r"IpAddr as core::str::traits::FromStr>::from_str$|IpAddr::from_str$", self.h_ip),
              (r"FromStr::from_str$|<impl str>::parse$", self.h_from), (r"IpNetwork::contains$", self.h_contains), (r"IpAddr::is_loopback$", self.h_loop),
              (r"HeaderMap(?:::)?(?:<.*?>)?::get(?:::<.*>)?$", self.h_get), (r"HeaderMap(?:::)?(?:<.*?>)?::(contains_key)", self.h_has), (r"HeaderValue::to_str$", self.h_tostr), (r"HeaderValue::as_bytes$", self.h_bytes),
              (r"Request(?:::)?(?:<.*?>)?::headers$", lambda I, s, n, c, a, st: [(I.sym("headers"), st)]),
              (r"Next::run$", self.h_run), (r"from_utf8$", self.h_utf8),
              (r"response::Builder::status", lambda I, s, n, c, a, st: [(I.sym("resp", I.deref(a[1], st)), st)]),
              (r"response::Builder::(body|header)", lambda I, s, n, c, a, st: [(Ok(I.deref(a[0], st)) if n.split("::<")[0].endswith("body") else I.deref(a[0], st), st)]),
              (r"response::Response(?:::)?(?:<.*?>)?::builder$", lambda I, s, n, c, a, st: [(I.sym("resp", I.sym("in", "default status")), st)]),
              (r"IntoResponse>?::into_response$", self.h_into),
              # building the router
              (r"axum::routing::Router(?:::<[^>]*>)?::(new|default)$", lambda I, s, n, c, a, st: [(("a", "ROUTER", "", (("L", ()),)), st)]),
              (r"axum::routing::Router(?:::<[^>]*>)?::(\w+)", self.h_router),
              (r"axum::middleware::from_fn::from_fn(_with_state)?$|middleware::from_fn(_with_state)?$", self.h_fromfn),
              (r"into_make_service(_with_connect_info)?(::<.*>)?$", lambda I, s, n, c, a, st: [(I.deref(a[0], st), st)]),
              (r"::serve(_with_incoming\w*)?$", self.h_serve), (r"axum::serve::serve", self.h_serve),
              (r"TcpListener::bind", self.h_bind)]
        self.served, self.bound = [], []
        self.I = new_interp(P, hs, seq_cap=64, int_cap=10 ** 6, inline_display=True, max_depth=40)

    @staticmethod
    def s(I, v, st):
        v = I.deref(v, st)
        return v[1] if v[0] == "s" else None

    def h_net(self, I, site, name, callee, args, st):
        x = self.s(I, args[0], st)
        if x is None:
            return None
        try:
            ipaddress.ip_network(x, strict=False)
            return [(Ok(("a", "NET", "", (("s", x),))), st)]
        except ValueError:
            return [(Err(I.sym("in", "bad network")), st)]

    def h_ip(self, I, site, name, callee, args, st):
        x = self.s(I, args[0], st)
        if x is None:
            return None
        try:
            ipaddress.ip_address(x)
            return [(Ok(("a", "IP", "", (("s", x),))), st)]
        except ValueError:
            return [(Err(I.sym("in", "bad address")), st)]

    def h_from(self, I, site, name, callee, args, st):
        t = " ".join(str(self.P.ty(*(g if isinstance(g, tuple) else (site.fn.crate, g))).get("s")) for g in (callee[4] if len(callee) > 4 and callee[4] else ()) if isinstance(g, (int, tuple)))
        full = t + " " + name + " " + str(callee[1])
        if "IpNetwork" in full:
            return self.h_net(I, site, name, callee, args, st)
        if "IpAddr" in full:
            return self.h_ip(I, site, name, callee, args, st)
        return None

    def h_contains(self, I, site, name, callee, args, st):
        n, a = I.deref(args[0], st), I.deref(args[1], st)
        if n[0] != "a" or n[1] != "NET" or a[0] != "a" or a[1] != "IP":
            return None
        return [(("b", in_nets(a[3][0][1], [n[3][0][1]])), st)]

    def h_loop(self, I, site, name, callee, args, st):
        a = I.deref(args[0], st)
        return [(("b", ipaddress.ip_address(a[3][0][1]).is_loopback), st)] if a[0] == "a" and a[1] == "IP" else None

    def h_get(self, I, site, name, callee, args, st):
        k = self.s(I, args[1], st)
        if k is None:
            return None
        v = self.hdr.get(k.lower())
        return [(NONE if v is None else Some(("a", "HV", "", (v,))), st)]

    def h_has(self, I, site, name, callee, args, st):
        k = self.s(I, args[1], st)
        return None if k is None else [(("b", self.hdr.get(k.lower()) is not None), st)]

    def h_tostr(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != "HV":
            return None
        return [(Ok(v[3][0]) if v[3][0][0] == "s" else Err(I.sym("in", "not text")), st)]

    def h_bytes(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        return [(v, st)] if v[0] == "a" and v[1] == "HV" else None

    def h_utf8(self, I, site, name, callee, args, st):
        return self.h_tostr(I, site, name, callee, args, st)

    def h_run(self, I, site, name, callee, args, st):
        return [(I.sym("forwarded"), st)]

    def h_into(self, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] == "t":
            for x in v[1]:
                if x[0] == "y" and (I.tag(x) or ("",))[0] in ("const",):
                    return [(I.sym("resp", x), st)]
        if v[0] == "y" and (I.tag(v) or ("",))[0] == "const":
            return [(I.sym("resp", v), st)]
        return [(v, st)]

    def h_fromfn(self, I, site, name, callee, args, st):
        return [(("a", "LAYER", "", (I.deref(args[-1], st),)), st)]

    def h_router(self, I, site, name, callee, args, st):
        m = re.search(r"axum::routing::Router(?:::<[^>]*>)?::(\w+)", name).group(1)
        r = I.deref(args[0], st)
        if r[0] != "a" or r[1] != "ROUTER" or m == "new":
            return None
        ev = r[3][0][1]
        if m in ("layer", "route_layer"):
            e = ("t", (("s", m), I.deref(args[1], st)))
        elif m in ("into_make_service", "into_make_service_with_connect_info", "with_state"):
            return [(r, st)]
        else:
            sub = [I.deref(a, st) for a in args[1:]]
            inner = [x for x in sub if x[0] == "a" and x[1] == "ROUTER"]
            if inner:
                e = ("t", (("s", "sub"), inner[0]))
            else:
                e = ("t", (("s", "route"), sub[0] if sub else ("s", m)))
        return [(("a", "ROUTER", "", (("L", ev + (e,)),)), st)]

    def h_serve(self, I, site, name, callee, args, st):
        for a in args:
            v = I.deref(a, st)
            if v[0] == "a" and v[1] == "ROUTER":
                self.served.append(v)
                return [(I.sym("in", "server future"), st)]
        if any(I.deref(a, st)[0] == "y" for a in args):
            self.served.append(None)
        return None

    def h_bind(self, I, site, name, callee, args, st):
        self.bound.append(I.deref(args[-1], st))
        return None

    def awaited(self, outs):
        """run the futures that an outcome holds"""
        res = []
        for r, cells, G in outs:
            if r[0] == "c" and r[1] in self.P.fns and self.P.fns[r[1]].kind == "coroutine":
                b = self.P.fns[r[1]]
                res += self.awaited(self.I.exec_fn(b, (r,) + (T,) * (b.argc - 1), cells, G, (), ()))
            else:
                res.append((r, cells, G))
        return res

    def clear(self):
        self.I.memo.clear()
        self.I.steps = 0

    def call(self, fv, args, G=None):
        """call a function value or a function"""
        self.clear()
        if not isinstance(fv, tuple):
            return self.awaited(self.I.exec_fn(fv, tuple(args), (), dict(G or {}), (), ()))
        f = self.P.fns.get(fv[1])
        if f is None:
            return []
        a = ((fv,) if f.kind == "closure" else ()) + tuple(args)
        if f.kind == "closure" and f.argc == 2 and len(args) != 1:
            a = (fv, ("t", tuple(args)))
        return self.awaited(self.I.exec_fn(f, a, (), dict(G or {}), (), ()))


def routes(ev, outer=()):
    """[(path, layers around it innermost first)]: a layer wraps the routes added before it"""
    out = []
    for i, e in enumerate(ev):
        k, v = e[1]
        around = tuple(x[1][1] for x in ev[i + 1:] if x[1][0][1] in ("layer", "route_layer")) + outer
        if k[1] == "route":
            out.append((v, around))
        elif k[1] == "sub":
            out += routes(v[3][0][1], around)
    return out


def answer(M, layers, hdr):
    """what becomes of a request: 'reached' or the refusing status; the outermost layer sees it first"""
    I = M.I
    M.hdr = hdr
    for l in reversed(layers):
        if l[0] != "a" or l[1] != "LAYER":
            return {"unknown layer"}
        outs = M.call(l[3][0], (I.sym("in", "req"), I.sym("in", "next")))
        got = set()
        for r, _, G in outs:
            t = I.tag(r) if r[0] == "y" else None
            if t and t[0] == "await":
                r = t[1]
                t = I.tag(r) if isinstance(r, tuple) and r[0] == "y" else None
            if t and t[0] == "forwarded":
                got.add("forward")
            elif t and t[0] == "resp":
                st = I.tag(t[1])
                got.add(st[1].rsplit("::", 1)[1] if st and st[0] == "const" else "?")
            else:
                got.add("?" + I.show(r)[:80])
        if got != {"forward"}:
            return got or {"nothing"}
    return {"reached"}


def handed(c, P, http):
    """the networks that the command line or the caller of the library gives are those that run_mcp_http is given"""
    CFG = next((a for a in P.adts if a.endswith("::McpConfig")), None)
    pub = [f for f in P.fns.values() if f.kind == "fn" and f.id.startswith("rudof_mcp::server") and f.name.startswith("run_mcp") and f.id != http.id]
    ent = [f for f in pub if f.argc == 1 and P.ty(f.crate, f.locals[1][0] if isinstance(f.locals[1], list) else f.locals[1]).get("adt") == CFG]
    c.anchor("config", "run_mcp", ent if ent else None, "the functions that run a McpConfig")
    NETS_ = Some(("L", (("s", "10.0.0.0/8"),)))
    seen = []
    def h_http(I, site, name, callee, args, st):
        seen.append(I.deref(args[3], st))
        return [(I.sym("in", "served"), st)]
    def h_block(I, site, name, callee, args, st):
        return [(I.deref(args[-1], st), st)]
    m = M(P)
    m.I = new_interp(P, [("^" + re.escape(http.id) + "$", h_http), (r"Runtime::block_on|Handle::block_on", h_block)], seq_cap=64, int_cap=10 ** 6, max_depth=40)
    tr = next((a for a in P.adts if a.endswith("::TransportType")), None)
    for f in ent:
        for key, nets in (("given", NETS_), ("none", NONE)):
            seen.clear()
            fs = {"transport": ("a", tr, "StreamableHTTP", ()), "bind_address": Some(("s", "127.0.0.1")), "port": Some(("i", 8000)), "route_path": Some(("s", "/rudof")), "allowed_networks": nets}
            m.call(f, (("a", CFG, "", tuple(fs.get(n, T) for n, _ in P.adts[CFG]["v"][0]["f"])),))
            c.ob("config", "%s/%s" % (f.name, key), f.where(), set(seen) == {nets}, "%s with allowed networks %s runs the server with %s" % (f.name, m.I.show(nets), sorted(m.I.show(x) for x in set(seen)) or "nothing determined"))
    # the command line
    cmd = [f for f in P.fns.values() if f.kind == "method" and f.crate.startswith("rudof_cli") and f.name == "execute" and "McpCommand" in f.id]
    if not c.anchor("config", "McpCommand::execute", cmd if len(cmd) == 1 else None, "the `mcp` command"):
        return
    f = cmd[0]
    got = []
    def h_run(I, site, name, callee, args, st):
        got.append(I.deref(args[0], st))
        return [(Ok(UNIT), st)]
    I = new_interp(P, [("^(%s)$" % "|".join(re.escape(x.id) for x in ent), h_run)], seq_cap=64, int_cap=10 ** 6, max_depth=40)
    st_ = P.ty(f.crate, f.locals[1][0] if isinstance(f.locals[1], list) else f.locals[1])
    McpC = next((a for a in P.adts if a.endswith("::McpCommand")), None)
    Args = next((a for a in P.adts if a.endswith("::McpArgs")), None)
    c.anchor("config", "McpArgs", Args, "the arguments of the `mcp` command")
    for key, ns in (("given", ("L", (("s", "10.0.0.0/8"), ("s", "::1")))), ("none", ("L", ()))):
        got.clear()
        fs = {"transport": ("a", tr, "StreamableHTTP", ()), "bind_address": ("s", "127.0.0.1"), "port": ("i", 8000), "route_path": ("s", "/rudof"), "allowed_networks": ns}
        a = ("a", Args, "", tuple(fs.get(n, T) for n, _ in P.adts[Args]["v"][0]["f"]))
        I.memo.clear(); I.steps = 0
        I.exec_fn(f, (("a", McpC, "", (a,)), T), (), {}, (), ())
        i = [n for n, _ in P.adts[CFG]["v"][0]["f"]].index("allowed_networks")
        vs = {I.deref(x[3][i], State({}, {})) if x[0] == "a" else T for x in got}
        want = {Some(ns)} | ({NONE} if key == "none" else set())
        c.ob("config", "command/" + key, f.where(), len(vs) == 1 and vs <= want, "the mcp command with networks %s runs the server with %s" % (I.show(ns), sorted(I.show(x) for x in vs) or "nothing determined"))


def run(c):
    P = c.prog
    c.rule("origin", "OriginConfig: an origin is allowed exactly when the host of its authority is an address of an allowed network, or `localhost` while a loopback address is allowed; "
           "anything that is no origin is refused")
    c.rule("config", "run_mcp_http guards with the networks that the command line or the caller gives, and with the loopback networks when none are given; a malformed network is an error")
    c.rule("reach", "every route of the served router lies inside both guards: a request reaches it exactly when its Origin is absent or allowed (403 otherwise) and its "
           "MCP-Protocol-Version is absent or supported (400 otherwise)")
    m = M(P)
    I = m.I
    byname = lambda n: [f for f in P.fns.values() if f.kind in ("fn", "method") and f.id.startswith("rudof_mcp::server") and f.name == n]
    allow, lo, new = byname("is_allowed_origin"), byname("localhost_only"), byname("new")
    new = [f for f in new if "OriginConfig" in f.id]
    http = byname("run_mcp_http")
    for what, x in (("is_allowed_origin", allow), ("localhost_only", lo), ("OriginConfig::new", new), ("run_mcp_http", http)):
        if len(x) != 1:
            c.anchor("origin", what, None, "the function " + what)
            return
    cfgs = []
    for name, cidrs, dflt in NETS:
        outs = m.call(lo[0], ()) if cidrs is None else m.call(new[0], (("L", tuple(("s", x) for x in cidrs)),))
        vals = {o[0] for o in outs}
        v = vals.pop() if len(vals) == 1 else T
        if cidrs is not None:
            v = v[3][0] if v[0] == "a" and v[2] == "Ok" else T
        cfgs.append((name, v, cidrs or dflt))
    for name, v, nets in cfgs:
        for o, host in ORIGINS:
            outs = m.call(allow[0], (v, ("s", o)))
            got = {r[1] if r[0] == "b" else "?" for r, _, _ in outs}
            want = allowed(host, nets)
            c.ob("origin", "%s/%s" % (name, o), allow[0].where(), got == {want}, "with %s, the origin %r must %sbe allowed but the function yields %s" % (name, o, "" if want else "not ", sorted(map(str, got))))
    c.floor("origin", len(NETS) * len(ORIGINS), "origins x networks")
    # malformed and empty network lists
    for key, xs in (("empty", ()), ("malformed", ("nonsense",)), ("one malformed", ("127.0.0.1", "300.1.1.1")), ("malformed first", ("10.0.0.0/40", "127.0.0.1"))):
        outs = m.call(new[0], (("L", tuple(("s", x) for x in xs)),))
        got = {r[2] if r[0] == "a" else "?" for r, _, _ in outs}
        c.ob("config", "new/" + key, new[0].where(), got == {"Err"}, "OriginConfig::new(%s) must be an error but yields %s" % (list(xs), sorted(got)))
    # the served router
    nreach = 0
    for key, nets, arg in (("none", ("127.0.0.0/8", "::1/128"), NONE), ("empty", ("127.0.0.0/8", "::1/128"), Some(("L", ()))),
                           ("one", ("192.168.1.0/24",), Some(("L", (("s", "192.168.1.0/24"),)))), ("two", ("192.168.1.0/24", "::1"), Some(("L", (("s", "192.168.1.0/24"), ("s", "::1")))))):
        m.served, m.bound = [], []
        m.call(http[0], (("s", "127.0.0.1"), ("i", 8000), ("s", "/rudof"), arg))
        sv = [x for x in m.served if x is not None]
        ok = bool(sv) and len(set(sv)) == 1
        c.ob("reach", "served/" + key, http[0].where(), ok, "the router that run_mcp_http serves cannot be determined (%d candidates)" % len(set(sv)))
        b = {x[1] if x[0] == "s" else "?" for x in m.bound}
        c.ob("config", "bind/" + key, http[0].where(), b == {"127.0.0.1:8000"}, "run_mcp_http(\"127.0.0.1\", 8000, ..) binds %s" % sorted(b))
        if not ok:
            continue
        rs = routes(sv[0][3][0][1])
        c.ob("reach", "routes/" + key, http[0].where(), any(p == ("s", "/rudof") for p, _ in rs), "the served router has no route at the given path")
        for p, layers in rs:
            for o, host in [(None, None), ("\0", None)] + [x for x in ORIGINS if x[0] in ("http://localhost", "https://[::1]:8080", "http://192.168.1.1", "https://192.168.1.254:99", "https://example.com", "null", "")]:
                for v in (None, "\0", "", "1.0", "2024-11-05", "2025-03-2", "2025-03-26 ") + VERSIONS:
                    if o not in (None, "https://example.com", "http://localhost", "http://192.168.1.1") and v not in (None, "1.0", "2025-11-25"):
                        continue
                    hv = lambda x: I.sym("in", "binary") if x == "\0" else None if x is None else ("s", x)
                    oko = o is None or o != "\0" and allowed(host, nets)
                    okv = v is None or v in VERSIONS
                    want = {"reached"} if oko and okv else ({"FORBIDDEN"} if okv else {"BAD_REQUEST"} if oko else {"FORBIDDEN", "BAD_REQUEST"})
                    got = answer(m, layers, {"origin": hv(o), "mcp-protocol-version": hv(v)})
                    nreach += 1
                    c.ob("reach", "%s/%s/%r/%r" % (key, I.show(p), o, v), http[0].where(), bool(got) and got <= want and len(got) == 1,
                         "with networks %s, a request to %s with Origin %r and MCP-Protocol-Version %r must be %s but is %s" % (key, I.show(p), o, v, " or ".join(sorted(want)), sorted(got)))
    handed(c, P, http[0])
    c.floor("reach", 200, "routes x requests")
    c.floor("config", 12, "network lists")
    c.notes.append("axum applies a layer to the routes registered before it, the last layer outermost; IpNetwork/IpAddr parsing and containment are taken from their definition; rmcp and axum are trusted")
