"""P06: the state that the MCP service saves. The saving and loading functions are interpreted with the operations on files recorded as effects; the sequence of
effects is then judged on an abstract file system (names, files, and how much of a file's content is on the disk) at every point at which it may stop, for every
failing operation, and for two saves in any interleaving."""
import os.path, re
from vf.absint import State, T, Ok, Err, Some, NONE, TRUE, FALSE, UNIT
from vf.natives import final_ptr
from vf.table import *
from checks import p12, p41

TITLE = "The MCP service saves complete states only, and a restart restores the last one"
MOD = "rudof_mcp::service::state::"
STATE = MOD + "PersistedState"
SVC = p41.SVC
FAIL = ("a", "FAILURE", "", ())
DIR, NAME = "/s", "/s/data.json"
OLD = ("s", "{old}")


def s(x):
    return ("s", x)


class M:
    """the interpreter with an abstract file system; `failat` is the number of the file operation that fails"""

    def __init__(m, P):
        m.P = P
        m.A = p12.M(P)
        m.failat = None
        m.fail = None
        m.env, m.dirs, m.files, m.count, m.out = NAME, {DIR}, {}, 0, b""
        fsop = lambda kind, *more: (lambda I, site, n, cc, a, st: m.op(I, st, kind, *[m.path(I, x, st) for x in a]))
        const = lambda v: (lambda I, site, n, cc, a, st: [(v, st)])
        strm = lambda fn: (lambda I, site, n, cc, a, st: m.text(I, a, st, fn))
        FS = r"(?:^|::)fs::(?:\w+::)*"
        hs = [(r"Mutex::(?:<.*?>::)?(lock|lock_owned|blocking_lock)$", m.h_lock), (r"(^|::)mem::drop$", m.h_drop),
              (r"env::var(_os)?$", lambda I, site, n, cc, a, st: [(Ok(s(m.env)) if m.env is not None else Err(FAIL), st)] if n.endswith("var") else [(Some(s(m.env)) if m.env is not None else NONE, st)]),
              (r"Path(?:Buf)?::exists$|path::Path::try_exists$|fs::exists$", lambda I, site, n, cc, a, st: m.known(I, a, st, lambda p: ("b", p in m.files or p in m.dirs), n)),
              (r"Path(?:Buf)?::is_dir$", lambda I, site, n, cc, a, st: m.known(I, a, st, lambda p: ("b", p in m.dirs), "")),
              (r"Path(?:Buf)?::is_file$", lambda I, site, n, cc, a, st: m.known(I, a, st, lambda p: ("b", p in m.files), "")),
              (r"Path(?:Buf)?::parent$", strm(lambda p: Some(s(os.path.dirname(p))) if p.strip("/") else NONE)),
              (r"Path(?:Buf)?::file_name$", strm(lambda p: Some(s(os.path.basename(p))) if os.path.basename(p) else NONE)),
              (r"Path(?:Buf)?::file_stem$", strm(lambda p: Some(s(os.path.splitext(os.path.basename(p))[0])))),
              (r"Path(?:Buf)?::extension$", strm(lambda p: Some(s(os.path.splitext(p)[1][1:])) if os.path.splitext(p)[1] else NONE)),
              (r"Path(?:Buf)?::with_file_name$", strm(lambda p, x: s(os.path.join(os.path.dirname(p), x)))),
              (r"Path(?:Buf)?::with_extension$", strm(lambda p, x: s(os.path.splitext(p)[0] + ("." + x if x else "")))),
              (r"Path(?:Buf)?::with_added_extension$", strm(lambda p, x: s(p + ("." + x if x else "")))),
              (r"Path(?:Buf)?::join$", strm(lambda p, x: s(os.path.join(p, x)))),
              (r"(Path|PathBuf|OsStr|OsString)::(to_path_buf|to_os_string|to_owned|as_os_str|as_path|into_os_string|into_path_buf|to_string_lossy|display|into_owned|as_ref)$", strm(s)),
              (r"(Path|OsStr)::to_str$", strm(lambda p: Some(s(p)))), (r"OsString::into_string$", strm(lambda p: Ok(s(p)))),
              (r"(OsString|PathBuf)::(push|set_extension|set_file_name|pop)$", m.h_mut),
              (r"(OsString|OsStr|PathBuf|Path)(?: as .*)?(?:::|>::)(from|new|default|deref|as_ref|borrow|into|clone)$", lambda I, site, n, cc, a, st: m.text(I, a, st, s) if a else [(s(""), st)]),
              (FS + r"(?:OpenOptions::new|File::options)$", const(("a", "OPTIONS", "", (("L", ()),)))), (FS + r"OpenOptions::(\w+)$", m.h_options),
              (FS + r"create_dir(_all)?$", fsop("mkdir")), (FS + r"rename$", fsop("rename")), (FS + r"remove_file$", fsop("remove")),
              (FS + r"write$", m.h_fswrite), (FS + r"copy$", fsop("copy")), (FS + r"hard_link$", fsop("link")),
              (FS + r"File::create$", fsop("create")), (FS + r"File::create_new$", fsop("create_new")), (FS + r"File::open$", m.h_open), (FS + r"(read|read_to_string)$", m.h_open),
              (r"Buf(?:Writer|Reader)::(?:<.*?>::)?(new|with_capacity)$|LineWriter::(?:<.*?>::)?new$", m.h_buf), (r"BufWriter::(?:<.*?>::)?(into_inner|get_ref|get_mut|into_parts)$", m.h_inner),
              (r"(IntoInnerError|BufWriter).*::(into_error|error|into_parts)$", const(FAIL)),
              (r"(^|::)Write(?:r)?(?:>)?::(flush)$|::flush$", m.h_flush), (FS + r"File::(sync_all|sync_data)$", m.h_sync), (FS + r"File::set_len$", m.h_write),
              (r"serde_json::(?:\w+::)*to_writer(_pretty)?$", m.h_write), (r"::(write_all|write_fmt|write)$", m.h_write),
              (r"serde_json::(?:\w+::)*to_(string|vec)(_pretty)?$", m.h_to), (r"serde_json::(?:\w+::)*from_(reader|str|slice)$", m.h_from),
              (r"Read(?:>)?::read_to_(string|end)$", m.h_readto),
              (r"io::(?:\w+::)*(?:<impl .*?>::)?Error::(new|other)$|io::error::Error>::(new|other)$|Error.*From<.*>>::from$", const(FAIL)),
              (r"(Utc|Local|SystemTime|Instant)::now$", const(("a", "NOW", "", ()))), (r"(to_rfc3339|to_rfc3339_opts|to_rfc2822)$", const(s("2020-01-01T00:00:00+00:00"))),
              (r"::(timestamp\w*|as_nanos|as_micros|as_millis|as_secs|subsec_\w+)$", const(("i", 1577836800))), (r"SystemTime::(duration_since|elapsed)$|timestamp_nanos_opt$", const(Ok(("a", "NOW", "", ())))),
              (r"process::id$", const(("i", 7))), (r"::(fetch_add|fetch_sub|fetch_update)$", m.h_fetch),
              (r"String::from_utf8(_lossy)?$|str::(?:\w+::)*from_utf8$", m.h_utf8),
              (r"Cursor::(?:<.*?>::)?(new|into_inner|get_ref|get_mut)$", lambda I, site, n, cc, a, st: [(I.deref(a[0], st), st)]),
              (r"(Display|Debug).*::fmt$", lambda I, site, n, cc, a, st: [(Ok(UNIT), st)] if a and I.deref(a[0], st)[:2] in (FAIL[:2], ("a", "NOW")) else None),
              (r"ToString.*::to_string$", lambda I, site, n, cc, a, st: [(s("failed"), st)] if a and I.deref(a[0], st)[:2] in (FAIL[:2], ("a", "NOW")) else None),
              (r"Rudof::new$", const(("a", "RUDOF", "", ()))), (r"(tool_router_public|prompt_router_public)$", const(("a", "ROUTER", "", ()))),
              (r"^(?:%s)$" % "|".join(re.escape(i) for i in m.A.opid), m.h_op), (r"Future::poll$", m.A.h_poll),
              (FS + r"\w+", m.h_unknown)]
        m.I = m.A.I = new_interp(P, hs, seq_cap=5000, int_cap=10 ** 12, inline_display=True, budget=10 ** 6)
        m.I.on_drop = m.on_drop

    # -- recording
    def fx(m, st, *ev):
        ns = st.fork()
        ns.G[("fx",)] = st.G.get(("fx",), ()) + (ev,)
        return ns

    def tr(m, st, *ev):
        ns = st.fork()
        ns.G[("tr",)] = st.G.get(("tr",), ()) + (ev,)
        return ns

    def op(m, I, st, kind, *args, ok=UNIT):
        """a file operation that may fail"""
        if kind in ("create", "create_new"):
            ok = ("a", "FILE", "", (s(args[0]), ("i", len(st.G.get(("fx",), ())))))
        n = sum(1 for e in st.G.get(("fx",), ()) if e[0] != "drop")
        if n == m.failat:
            return [(Err(FAIL), m.fx(st, "failed", kind, *args))]
        return [(Ok(ok), m.fx(st, kind, *args))]

    def path(m, I, v, st):
        v = I.deref(v, st)
        if v[0] != "s":
            raise Exception("a path is not determined: %s" % I.show(v)[:1800])
        return v[1]

    def text(m, I, a, st, fn):
        vs = [I.deref(x, st) for x in a]
        if any(v[0] != "s" for v in vs):
            return None
        return [(fn(*[v[1] for v in vs]), st)]

    def known(m, I, a, st, fn, n):
        r = fn(m.path(I, a[0], st))
        return [(Ok(r) if n.endswith(("try_exists", "fs::exists")) else r, st)]

    def h_mut(m, I, site, name, callee, args, st):
        cell, proj = final_ptr(I, args[0], st)
        old = I.read_cell(cell, proj, st)
        x = I.deref(args[1], st) if len(args) > 1 else s("")
        if old[0] != "s" or x[0] != "s":
            return None
        k = name.split("::")[-1]
        o, x = old[1], x[1]
        if k == "push":
            new = os.path.join(o, x) if "PathBuf" in name else o + x
        elif k == "set_extension":
            new = os.path.splitext(o)[0] + ("." + x if x else "")
        else:
            new = os.path.join(os.path.dirname(o), x) if k == "set_file_name" else os.path.dirname(o)
        ns = st.fork()
        I.write_cell(cell, proj, s(new), ns)
        return [(UNIT if k == "push" or k == "set_file_name" else TRUE, ns)]

    def fd(m, I, v, st):
        """(file value, buffered) of a writer"""
        v = I.deref(v, st)
        buf = False
        for _ in range(4):
            if v[0] == "a" and v[1] == "BUF":
                buf, v = True, I.deref(v[3][0], st)
            elif v[0] == "a" and v[1] == "FILE":
                return v, buf
            elif v[0] == "p":
                v = I.deref(v, st)
        return None, buf

    def h_unknown(m, I, site, name, callee, args, st):
        return [(T, m.fx(st, "unknown", name))]

    def h_open(m, I, site, name, callee, args, st):
        p = m.path(I, args[0], st)
        v = m.files.get(p)
        k = name.split("::")[-1]
        if p in m.dirs and k == "open":
            return [(Ok(("a", "CONTENT", "", (s(p),))), st)]
        if v is None or v == "unreadable" and k == "open" or v == "unreadable":
            return [(Err(FAIL), st)]
        return [(Ok(("a", "CONTENT", "", (s(p),))), st)]

    def h_readto(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        cell, proj = final_ptr(I, args[1], st)
        ns = st.fork()
        I.write_cell(cell, proj, v, ns)
        return [(Ok(("i", 9)), ns)]

    def h_options(m, I, site, name, callee, args, st):
        k = name.split("::")[-1]
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != "OPTIONS":
            return None
        if k == "open":
            o = {x[1][0][1]: x[1][1] for x in v[3][0][1]}
            p = m.path(I, args[1], st)
            if o.get("create_new") == TRUE:
                return m.op(I, st, "create_new", p)
            if o.get("truncate") == TRUE and (o.get("create") == TRUE or p in m.files):
                return m.op(I, st, "create", p)
            if o.get("write") == TRUE or o.get("append") == TRUE:
                return m.op(I, st, "create", p)      # writes over what is there: as bad as emptying it
            return m.h_open(I, site, name, callee, args[1:], st)
        new = ("a", "OPTIONS", "", (("L", v[3][0][1] + (("t", (s(k), I.deref(args[1], st))),)),))
        if args[0][0] == "p":
            cell, proj = final_ptr(I, args[0], st)
            ns = st.fork()
            I.write_cell(cell, proj, new, ns)
            return [(args[0], ns)]
        return [(new, st)]

    def h_buf(m, I, site, name, callee, args, st):
        v = I.deref(args[-1], st)
        return [(v if "Reader" in name or v[0] == "a" and v[1] == "CONTENT" else ("a", "BUF", "", (v,)), st)]

    def h_inner(m, I, site, name, callee, args, st):
        f, buf = m.fd(I, args[0], st)
        if f is None:
            return None
        if not name.endswith("into_inner"):
            return [(f, st)]
        return m.op2(I, st, "flush", f, f)

    def op2(m, I, st, kind, f, ok=UNIT):
        return m.op(I, st, kind, f[3][0][1], f[3][1][1], ok=ok)

    def h_flush(m, I, site, name, callee, args, st):
        f, buf = m.fd(I, args[0], st)
        if f is None:
            return None
        return m.op2(I, st, "flush", f) if buf else [(Ok(UNIT), st)]

    def h_sync(m, I, site, name, callee, args, st):
        f, buf = m.fd(I, args[0], st)
        if f is None:
            v = I.deref(args[0], st)
            return [(Ok(UNIT), st)] if v[0] == "a" and v[1] == "CONTENT" else None
        return m.op2(I, st, "sync", f)

    def h_write(m, I, site, name, callee, args, st):
        f, buf = m.fd(I, args[0], st)
        if f is None:
            return None
        v = I.deref(args[1], st) if len(args) > 1 else T
        v = v[3][0] if v[0] == "a" and v[1] == "JSON" else v
        n = sum(1 for e in st.G.get(("fx",), ()) if e[0] != "drop")
        if n == m.failat:
            return [(Err(FAIL), m.fx(st, "failed", "write", f[3][0][1], f[3][1][1]))]
        return [(Ok(UNIT), m.fx(st, "write", f[3][0][1], f[3][1][1], buf, v))]

    def h_fswrite(m, I, site, name, callee, args, st):
        p, v = m.path(I, args[0], st), I.deref(args[1], st)
        v = v[3][0] if v[0] == "a" and v[1] == "JSON" else v
        out = []
        for r, s2 in m.op(I, st, "create", p):
            if r[2] == "Err":
                out.append((r, s2))
            else:
                out.append((Ok(UNIT), m.fx(s2, "write", p, r[3][0][3][1][1], False, v)))
        return out

    def h_to(m, I, site, name, callee, args, st):
        return [(Ok(("a", "JSON", "", (I.deref(args[0], st),))), st)]

    def h_from(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "a" or v[1] != "CONTENT":
            return None
        c = m.files.get(v[3][0][1])
        return [(Err(FAIL) if c in (None, "malformed") else Ok(c), st)]

    def h_fetch(m, I, site, name, callee, args, st):
        n = st.G.get(("n",), 0)
        ns = st.fork()
        ns.G[("n",)] = n + 1
        return [(("i", m.count * 100 + n), ns)]

    def h_utf8(m, I, site, name, callee, args, st):
        v = I.deref(args[0], st)
        if v[0] != "L" or any(x[0] != "i" for x in v[1]):
            return [(v, st)] if v[0] == "s" else [(Ok(v), st)] if v[0] == "a" and v[1] == "CONTENT" else None
        try:
            return [(Ok(s(bytes(x[1] for x in v[1]).decode())), st)]
        except UnicodeDecodeError:
            return [(Err(FAIL), st)]

    def h_lock(m, I, site, name, callee, args, st):
        g = ("a", "GUARD", "", (s("std" if "std::" in name or "sync::poison" in name or "alloc" in name else "tokio"),))
        if g[3][0][1] == "std":
            return [(Ok(g), m.fx(st, "lock"))]
        return [(("a", "FUTURE", "", (g,)), m.tr(st, "lock"))]

    def h_drop(m, I, site, name, callee, args, st):
        return [(UNIT, m.on_drop(I.deref(args[0], st), st))]

    def on_drop(m, v, st):
        if v[0] == "a" and v[1] == "GUARD":
            return m.fx(st, "unlock") if v[3][0][1] == "std" else m.tr(st, "unlock")
        if v[0] == "a" and v[1] == "BUF":
            f = v[3][0]
            if f[0] == "a" and f[1] == "FILE" and not any(e[0] == "flush" and e[1:] == (f[3][0][1], f[3][1][1]) for e in st.G.get(("fx",), ())):
                return m.fx(st, "drop", f[3][0][1], f[3][1][1])
        return st

    def h_op(m, I, site, name, callee, args, st):
        f = m.A.opid.get(callee[1]) or m.A.opid.get(name)
        if not f or f.name == "new":
            return None
        want = p12.OPS[f.name]
        n = f.d["names"]
        skip = len(args) - len(want)
        have = [((n.get(str(i + 1)) if isinstance(n, dict) else n[i + 1]) or "").lstrip("_") for i in range(f.argc)][skip:]
        names = have if set(have) == set(want) else want
        vals = tuple(sorted((k, m.A.pv(I.deref(a, st), st)) for k, a in zip(names, args[skip:]) if k != "writer"))
        ns = m.tr(st, f.name, vals)
        bad = m.fail == f.name
        if "writer" in names and not bad:
            w = args[skip + names.index("writer")]
            if w[0] != "p":
                return None
            cell, proj = final_ptr(I, w, ns)
            old = I.read_cell(cell, proj, ns)
            if old[0] != "L":
                return None
            I.write_cell(cell, proj, ("L", old[1] + tuple(("i", b) for b in m.out)), ns)
        return [(Err(FAIL) if bad else Ok(UNIT), ns)]

    def run(m, f, args, cells=()):
        """outcomes: [(result, effects, trace)]"""
        m.I.memo.clear(); m.I.steps = 0
        outs = m.I.exec_fn(f, args, cells, {}, (), ())
        res = []
        while outs:
            r, cells, G = outs.pop()
            if r[0] == "c" and r[1] in m.P.fns and m.P.fns[r[1]].kind == "coroutine":
                b = m.P.fns[r[1]]
                outs += m.I.exec_fn(b, (r,) + (T,) * (b.argc - 1), cells, G, (), ())
            else:
                res.append((r, G.get(("fx",), ()), G.get(("tr",), ())))
        return list(dict.fromkeys(res))


# ---- the abstract file system ----
# files: inode -> (content, on disk?) with content a state, "old", "" or a part ("part", of)

class Disk:
    __slots__ = ("names", "inodes", "fds", "next")

    def __init__(d, names, inodes, fds, nxt):
        d.names, d.inodes, d.fds, d.next = names, inodes, fds, nxt

    def key(d):
        return (tuple(sorted(d.names.items())), tuple(sorted(d.inodes.items(), key=lambda x: x[0])), tuple(sorted(d.fds.items())))

    def copy(d):
        return Disk(dict(d.names), dict(d.inodes), dict(d.fds), d.next)

    def content(d, p):
        return d.inodes[d.names[p]] if p in d.names else None

    def step(d, who, e):
        """the disk after the effect e of the save `who`"""
        d = d.copy()
        k = e[0]
        if k in ("create", "create_new"):
            i = d.names.get(e[1])
            if i is None or k == "create_new":
                i, d.next = d.next, d.next + 1
                d.names[e[1]] = i
            d.inodes[i] = ("", False)
            d.fds[(who, e[1])] = i
        elif k in ("write", "flush", "sync", "drop", "failed") and (k != "failed" or e[1] in ("write", "flush", "sync")):
            i = d.fds.get((who, e[2] if k == "failed" else e[1]))
            if i is not None:
                c, disk = d.inodes[i]
                if k == "write":
                    mixed = c != ""
                    d.inodes[i] = (("broken" if c == ("broken", who) else "mixed" if mixed else "part" if e[3] else "all", who), False)
                elif k == "flush":
                    d.inodes[i] = (("all", who) if c == ("part", who) else c, disk)
                elif k == "sync":
                    d.inodes[i] = (c, True)
                elif k == "failed":
                    d.inodes[i] = (("broken", who) if c in ("", ("part", who), ("all", who)) else c, False)
        elif k == "rename":
            if e[1] in d.names:
                d.names[e[2]] = d.names.pop(e[1])
        elif k == "link":
            if e[1] in d.names:
                d.names[e[2]] = d.names[e[1]]
        elif k == "copy":
            i = d.names.get(e[2])
            if i is None:
                i, d.next = d.next, d.next + 1
                d.names[e[2]] = i
            d.inodes[i] = (("part", who), False)
        elif k == "remove":
            d.names.pop(e[1], None)
        return d


def fresh(old):
    return Disk({NAME: 0} if old else {}, {0: ("old", True)} if old else {}, {}, 1)


def good(c, whos, old):
    """may the state file be like that whenever the machine stops"""
    if c is None:
        return not old
    return c == ("old", True) and old or c[1] and c[0][0] == "all" and c[0][1] in whos


def say(c):
    if c is None:
        return "missing"
    x, disk = c
    if x == "":
        return "empty"
    return ("the old one" if x == "old" else {"part": "a part of the new state", "broken": "a part of the new state", "all": "the new state", "mixed": "a mixture of two states"}[x[0]]) + ("" if disk else ", not yet on the disk")


def evs(fx):
    return " ".join("%s(%s)" % (e[0] if e[0] != "failed" else "FAILED " + e[1], ", ".join(os.path.basename(x) for x in e[1 + (e[0] == "failed"):] if isinstance(x, str))) for e in fx)


RULES = [("atomic", "at every point at which a save may stop, the state file is the complete old or the complete new state, on the disk; a save that succeeds has replaced it; the new file is made in the same directory"),
         ("failing", "a save one of whose operations fails is an error that leaves the old state"),
         ("concurrent", "two saves, interleaved in any way, leave the state file complete at every point, and one of the two states in the end"),
         ("saved", "what is saved is the given document, or all of the session's data as N-Triples, with its number of triples; nothing without a state directory or when the data cannot be written"),
         ("format", "every field of the state is written under a name under which it is read again"),
         ("restored", "a start asks for exactly the saved document to be loaded, as N-Triples; a missing or unreadable state, or one that cannot be loaded, is an empty start"),
         ("path", "the state is saved and loaded at the path of the environment variable, or else the documented one")]


def state(m, nt, count, version=1):
    vals = dict(version=("i", version), rdf_data_ntriples=NONE if nt is None else Some(s(nt)), last_saved=Some(s("2020-01-01T00:00:00+00:00")), triple_count=NONE if count is None else Some(("i", count)))
    names = [n for n, _ in m.P.adts[STATE]["v"][0]["f"]]
    return ("a", STATE, "", tuple(vals[n] for n in names))


def interleave(one, two, old, both):
    """every interleaving of two saves: (what is wrong, number of states)"""
    todo, seen, bad = [(0, 0, None, fresh(old))], set(), []
    while todo:
        i, j, held, d = todo.pop()
        k = (i, j, held, d.key())
        if k in seen:
            continue
        seen.add(k)
        if not good(d.content(NAME), "AB", old):
            bad.append("after %s of the one and %s of the other, the state file is %s" % (evs(one[:i]), evs(two[:j]), say(d.content(NAME))))
        if i == len(one) and j == len(two) and (d.content(NAME) is None or d.content(NAME)[0][0] != "all" or not both and d.content(NAME)[0] != ("all", "B") and ("rename", NAME) not in [(e[0], e[-1]) for e in one]):
            bad.append("in the end, the state file is %s" % say(d.content(NAME)))
        for w, fx, p in (("A", one, i), ("B", two, j)):
            if p == len(fx):
                continue
            e, h = fx[p], held
            if e[0] == "lock":
                if held:
                    continue
                h = w
            elif e[0] == "unlock":
                h = None
            todo.append((i + (w == "A"), j + (w == "B"), h, d.step(w, e)))
    return bad, len(seen)


def saves(c, m, ids):
    f = m.save
    st = state(m, "<a> <b> <c> .", 1)
    base = None
    n = dict(atomic=0, failing=0, concurrent=0, states=0)
    for old in (True, False):
        m.failat, m.files, m.dirs = None, ({NAME: "x"} if old else {}), {DIR}
        outs = m.run(f, (st,))
        for r, fx, _ in outs:
            d = fresh(old)
            bad = []
            if any(e[0] == "unknown" for e in fx):
                bad.append("not decided: %s" % [e[1] for e in fx if e[0] == "unknown"])
            for i, e in enumerate(fx):
                if e[0] == "rename" and os.path.dirname(e[1]) != os.path.dirname(e[2]):
                    bad.append("%s is renamed from another directory" % e[2])
                if e[0] == "write" and e[4] != st:
                    bad.append("what is written is %s" % m.I.show(e[4])[:100])
                d = d.step("A", e)
                if not good(d.content(NAME), "A", old):
                    bad.append("stopped after %s, the state file is %s" % (evs(fx[:i + 1]), say(d.content(NAME))))
            if r != Ok(UNIT):
                bad.append("answers %s" % m.I.show(r)[:60])
            elif d.content(NAME) != (("all", "A"), True):
                bad.append("succeeds with a state file that is %s: %s" % (say(d.content(NAME)), evs(fx)))
            c.ob(ids["atomic"], "a save %s" % ("over an old state" if old else "of the first state"), f.where(), not bad, "; ".join(bad[:3]))
            n["atomic"] += 1
        if len(outs) != 1:
            c.ob(ids["atomic"], "one outcome", f.where(), False, "%d outcomes" % len(outs))
            return
        base = outs[0][1]
        kinds = [e for e in base if e[0] != "drop"]
        for i, e in enumerate(kinds):
            if e[0] in ("lock", "unlock", "remove"):
                continue
            m.failat = i
            for r, fx, _ in m.run(f, (st,)):
                d = fresh(old)
                bad = []
                for j, x in enumerate(fx):
                    d = d.step("A", x)
                    if not good(d.content(NAME), "A", old):
                        bad.append("stopped after %s, the state file is %s" % (evs(fx[:j + 1]), say(d.content(NAME))))
                end = d.content(NAME)
                if r[2] != "Err":
                    if end != (("all", "A"), True):
                        bad.append("%s fails and the save succeeds with a state file that is %s" % (e[0], say(end)))
                elif old and end not in (("old", True), (("all", "A"), True)):
                    bad.append("%s fails and the state file is %s" % (e[0], say(end)))
                c.ob(ids["failing"], "%s %d fails, %s" % (e[0], sum(1 for x in kinds[:i] if x[0] == e[0]) + 1, "over an old state" if old else "the first state"), f.where(), not bad, "; ".join(bad[:2]))
                n["failing"] += 1
    m.failat, m.files = None, {NAME: "x"}
    for old in (True, False):
        m.files = {NAME: "x"} if old else {}
        runs = []
        for k in (1, 2):
            m.count, m.failat = k, None
            runs.append([m.run(f, (st,))[0]])
        m.count = 1
        for i in range(sum(1 for e in runs[0][0][1] if e[0] != "drop")):
            m.failat = i
            runs[0] += m.run(f, (st,))[:1]
        m.count, m.failat = 0, None
        for i, (r, fx, _) in enumerate(runs[0]):
            bad, k = interleave(fx, runs[1][0][1], old, r[2] != "Err")
            c.ob(ids["concurrent"], "two saves, %s, %s" % ("over an old state" if old else "the first ones", "none fails" if not i else "operation %d of one fails" % i), f.where(), not bad, bad[0] if bad else "")
            n["concurrent"] += 1
            n["states"] += k
    c.notes.append("P06: %d interleaved states of the abstract file system" % n["states"]) if isinstance(getattr(c, "notes", None), list) else None
    c.floor(ids["concurrent"], n["concurrent"], "pairs of saves")
    c.floor(ids["atomic"], n["atomic"], "saves")
    c.floor(ids["failing"], n["failing"], "failing operations")


def persisted(c, m, ids):
    f = m.persist
    svc = ("a", SVC, "", tuple(m.I.sym("in", n) for n, _ in m.P.adts[SVC]["v"][0]["f"]))
    n = 0
    NT = "<a> <b> \"é\" .\n# no triple\n\n<a> <b> <c> .\n"
    bnt = "<x> <y> <z> .\n<x> <y> <w> .\n<x> <y> _:b .\n"
    for what in ("given", "all", "all, none", "all, not text", "all, failing", "given, no directory", "all, no directory", "given, the save fails", "all, the save fails", "given, over another state", "all, over another state", "all, none, over another state"):
        m.failat, m.files, m.dirs, m.fail, m.out = 0 if "save fails" in what else None, {}, {DIR}, None, bnt.encode()
        if "over" in what:
            m.files = {NAME: state(m, "<o> <o> <o> .\n" * 2 if "given" in what else "<o> <o> <o> .\n" * 3, 2 if "given" in what else 3)}
        if "none" in what:
            m.out = b""
        if "not text" in what:
            m.out = b"\xff"
        if "failing" in what:
            m.fail = "serialize_data"
        if "no dir" in what:
            m.dirs = set()
        arg = Some(s(NT)) if what.startswith("given") else NONE
        outs = m.run(f, (svc, arg))
        bad = [] if len(outs) == 1 else ["%d outcomes" % len(outs)]
        for r, fx, tr in outs:
            wr = [e[4] for e in fx if e[0] == "write"]
            text = NT if arg != NONE else m.out.decode("latin-1")
            cnt = sum(1 for x in text.split("\n") if x.strip() and not x.strip().startswith("#"))
            none = "no dir" in what or "not text" in what or "failing" in what
            if none and fx:
                bad.append("does %s" % evs(fx))
            if "save fails" in what:
                if r[2] != "Err":
                    bad.append("answers %s although the save fails" % m.I.show(r)[:60])
                continue
            if not none and [m.norm(x) for x in wr] != [m.norm(state(m, text, cnt))]:
                bad.append("saves %s" % [m.I.show(x)[:120] for x in wr])
            want = Ok(FALSE) if "no dir" in what else None if none else Ok(TRUE)
            if want is None and r[2] != "Err" or want is not None and r != want:
                bad.append("answers %s" % m.I.show(r)[:60])
            ops = [e for e in tr if e[0] not in ("lock", "unlock")]
            if ops != ([("serialize_data", (("result_data_format", "ntriples"),))] if what.startswith("all") and "no dir" not in what else []):
                bad.append("asks for %s" % [o[0] for o in ops])
            held = 0
            for e in tr:
                held = 1 if e[0] == "lock" else 0 if e[0] == "unlock" else held
                if e[0] not in ("lock", "unlock") and not held:
                    bad.append("%s without the session's lock" % e[0])
            if arg != NONE and any(e[0] == "lock" for e in tr):
                bad.append("takes the session's lock, which its caller holds")
        c.ob(ids["saved"], what, f.where(), not bad, "; ".join(bad[:2]))
        n += 1
    m.fail = None
    c.floor(ids["saved"], n, "rows")


def restored(c, m, ids):
    f = m.start
    n = 0
    NT = "<a> <b> <c> .\n"
    rows = [("a state", state(m, NT, 1), NT), ("a state without count", state(m, NT, None), NT), ("a state of another version", state(m, NT, 1, 0), NT), ("a state without data", state(m, None, None), None),
            ("a state with an empty document", state(m, "", 0), None), ("no file", None, None), ("an unreadable file", "unreadable", None), ("a malformed file", "malformed", None),
            ("a state that cannot be loaded", state(m, NT, 1), NT)]
    for what, content, want in rows:
        m.failat, m.files, m.dirs, m.fail = None, ({} if content is None else {NAME: content}), {DIR}, "load_data" if "cannot" in what else None
        outs = m.run(f, ())
        bad = [] if len(outs) == 1 else ["%d outcomes" % len(outs)]
        for r, fx, tr in outs:
            if r[0] != "a" or r[2] != "Ok":
                bad.append("the start fails: %s" % m.I.show(r)[:80])
            ops = [(k, dict(v)) for k, v in (e for e in tr if e[0] not in ("lock", "unlock"))]
            asked = [(k, {x: y for x, y in v.items() if y not in (None, (), [], ("memory", None))}) for k, v in ops]
            exp = [] if want is None else [("load_data", want)]
            got = []
            for k, v in ops:
                t = v.get("data")
                got.append((k, t))
            flat = lambda x: [y for z in x for y in flat(z)] if isinstance(x, (tuple, list)) and not (len(x) == 2 and x[0] == "s" and isinstance(x[1], str)) else [x]
            if [k for k, _ in ops] != [k for k, _ in exp]:
                bad.append("asks for %s" % [k for k, _ in ops])
            elif exp:
                v = ops[0][1]
                txt = [x[1] if isinstance(x, tuple) else x for x in flat(v.get("data"))]
                if want not in txt or sum(1 for x in txt if isinstance(x, str) and x.endswith("\n")) != 1:
                    bad.append("loads %s" % str(v.get("data"))[:100])
                if v.get("data_format") != "ntriples":
                    bad.append("loads as %s" % v.get("data_format"))
                more = {k: x for k, x in v.items() if k not in ("data", "data_format") and x is not None and x != () and "merge" not in k}
                if more:
                    bad.append("with %s" % more)
            if any(e[0] not in ("drop",) for e in fx):
                bad.append("changes files: %s" % evs(fx))
        c.ob(ids["restored"], what, f.where(), not bad, "; ".join(bad[:2]))
        n += 1
    m.fail = None
    c.floor(ids["restored"], n, "starts")


def paths(c, m, ids):
    n = 0
    NT = "<a> <b> <c> .\n"
    for env, want in ((None, "/app/state/data.json"), ("/v/x.json", "/v/x.json"), ("/v/x.tmp", "/v/x.tmp"), ("/v/x", "/v/x")):
        m.env, m.dirs, m.failat = env, {os.path.dirname(want)}, None
        m.files = {want: state(m, NT, 1)}
        bad = []
        for r, fx, _ in m.run(m.save, (state(m, NT, 1),)):
            to = [e[2] for e in fx if e[0] == "rename"]
            made = [e[1] for e in fx if e[0].startswith("create")]
            if to != [want]:
                bad.append("saves to %s" % (to or made))
            if want in made:
                bad.append("writes in the state file itself")
        loads = [[e for e in tr if e[0] == "load_data"] for _, _, tr in m.run(m.start, ())]
        if any(len(x) != 1 for x in loads):
            bad.append("does not load it from %s" % want)
        c.ob(ids["path"], "%s" % (env or "the documented path"), m.save.where(), not bad, "; ".join(bad))
        n += 1
    m.env, m.dirs, m.files = NAME, {DIR}, {}
    c.floor(ids["path"], n, "paths")


def form(c, m, ids):
    """the derived writer and reader of the state: the names agree"""
    P, I = m.P, m.I
    n = 0
    ser = [f for f in P.fns.values() if f.kind == "method" and f.name == "serialize" and "for " + STATE + ">" in f.id]
    vm = [f for f in P.fns.values() if f.kind == "method" and f.name == "visit_map" and MOD in f.id and "PersistedState>" in f.id]
    fv = [f for f in P.fns.values() if f.kind == "method" and f.name == "visit_str" and MOD in f.id and "PersistedState>" in f.id]
    for k, v in (("writer", ser), ("reader", vm), ("names", fv)):
        if not c.anchor(ids["format"], k, v, "the derived code of PersistedState"):
            return
    out = []
    cur = {}

    def h_field(I, site, name, callee, args, st):
        ns = st.fork()
        ns.G[("out",)] = st.G.get(("out",), ()) + ((I.deref(args[1], st)[1], I.deref(args[2], st)),)
        return [(Ok(UNIT), ns)]

    def h_key(I, site, name, callee, args, st):
        i = st.G.get(("i",), 0)
        ns = st.fork()
        ns.G[("i",)] = i + 1
        if i >= len(cur["rows"]):
            return [(Ok(NONE), ns)]
        return [(Ok(Some(cur["field"][cur["rows"][i][0]])), ns)]

    def h_value(I, site, name, callee, args, st):
        return [(Ok(cur["rows"][st.G[("i",)] - 1][1]), st)]

    J = new_interp(P, [(r"serialize_struct$", lambda I, site, nn, cc, a, st: [(Ok(("a", "SS", "", ())), st)]), (r"(serialize_field|serialize_entry)$", h_field), (r"SerializeStruct::end$|SerializeMap::end$", lambda I, site, nn, cc, a, st: [(Ok(UNIT), st)]),
                       (r"next_key(_seed)?$", h_key), (r"next_value(_seed)?$", h_value), (r"missing_field$", lambda I, site, nn, cc, a, st: [(Err(FAIL), st)]), (r"duplicate_field$", lambda I, site, nn, cc, a, st: [(Err(FAIL), st)])])
    for nt, cnt in (("<a> <b> <c> .\n", 1), (None, None), ("", 0)):
        v = state(m, nt, cnt)
        J.memo.clear(); J.steps = 0
        outs = J.exec_fn(ser[0], (v, ("a", "SER", "", ())), (), {}, (), ())
        rows = [o[2].get(("out",), ()) for o in outs]
        bad = [] if len(rows) == 1 else ["%d outcomes of the writer" % len(rows)]
        if rows:
            cur["rows"] = rows[0]
            cur["field"] = {}
            for k, _ in rows[0]:
                J.memo.clear(); J.steps = 0
                o = J.exec_fn(fv[0], (T, s(k)), (), {}, (), ())
                cur["field"][k] = o[0][0][3][0] if len(o) == 1 and o[0][0][2] == "Ok" else T
            J.memo.clear(); J.steps = 0
            back = J.exec_fn(vm[0], (T, ("a", "MAP", "", ())), (), {}, (), ())
            if [o[0] for o in back] != [Ok(v)]:
                bad.append("%s, written as %s, is read as %s" % (I.show(v), [k for k, _ in rows[0]], [J.show(o[0])[:120] for o in back][:2]))
        c.ob(ids["format"], "a state with %s" % ("no document" if nt is None else "%d triples" % cnt), ser[0].where(), not bad, "; ".join(bad))
        n += 1
    c.floor(ids["format"], n, "states")


def run(c):
    P = c.prog
    m = M(P)
    ids = {k: c.rule(k, w) for k, w in RULES}
    find = lambda rx, **kw: [f for f in P.fns.values() if re.search(rx, f.id) and f.kind in ("fn", "method")]
    m.save = m.persist = m.start = None
    for k, rx in (("save", "^" + MOD + r"save_state$"), ("persist", r"RudofMcpService::persist_state_with$"), ("start", r"RudofMcpService::try_new$")):
        fs = find(rx)
        if not c.anchor(ids["saved"], k, fs, "the service's function " + k):
            return
        setattr(m, k, fs[0])
    i = [n for n, _ in P.adts[STATE]["v"][0]["f"]].index("last_saved")
    m.norm = lambda v: v[:3] + (tuple(x for j, x in enumerate(v[3]) if j != i),) if v[0] == "a" and v[1] == STATE else v
    saves(c, m, ids)
    persisted(c, m, ids)
    restored(c, m, ids)
    paths(c, m, ids)
    form(c, m, ids)
