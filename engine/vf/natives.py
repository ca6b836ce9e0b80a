"""Abstract transfer functions for std (and a few dependency) functions."""
import re
from .absint import (T, UNIT, TRUE, FALSE, NONE, OPT, RES, CF, POLL, ORDERING, Some, Ok, Err, State, has_ptr,
                     map_ptr, collect_ptrs, ORDNAME)

_norm_cache = {}


def norm(p):
    """drop generic argument lists: alloc::vec::Vec::<T, A>::push -> alloc::vec::Vec::push"""
    r = _norm_cache.get(p)
    if r is not None:
        return r
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl ", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    r = "".join(out).replace("alloc::rcs::arc::", "alloc::sync::").replace("alloc::rcs::rc::", "alloc::rc::")
    _norm_cache[p] = r
    return r


NAT = {}
PAT = []


def names(s):
    """split a list of paths (paths may contain `<impl [T]>`)"""
    return re.split(r"\s+(?=[a-z_]+::)", s.strip())


def nat(*paths):
    def d(f):
        for n in paths:
            NAT[n] = f
        return f
    return d


_lk = {}


def lookup(name):
    n = norm(name)
    f = NAT.get(n)
    if f is not None:
        return f
    if n in _lk:
        return _lk[n]
    f = None
    for rx, g in PAT:
        if rx.search(n):
            f = g
            break
    _lk[n] = f
    return f


def pat(rx):
    def d(f):
        PAT.append((re.compile(rx), f))
        return f
    return d


# consulted even when a workspace impl exists (they return None to let the impl be analysed)
HYBRID = {"core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt",
          "core::cmp::PartialOrd::ge", "core::fmt::Display::fmt", "core::fmt::Debug::fmt", "core::convert::From::from", "core::convert::Into::into"}
FORCE = {"core::clone::Clone::clone", "core::clone::Clone::clone_from"}


# ------------------------------------------------------------------ identity
IDENT = names("""core::clone::Clone::clone core::convert::AsRef::as_ref core::convert::AsMut::as_mut core::borrow::Borrow::borrow
core::borrow::BorrowMut::borrow_mut alloc::borrow::ToOwned::to_owned core::ops::deref::DerefMut::deref_mut
alloc::boxed::Box::new alloc::rc::Rc::new alloc::sync::Arc::new alloc::boxed::Box::pin core::hint::must_use core::pin::Pin::new_unchecked core::pin::Pin::new
core::pin::Pin::as_mut core::pin::Pin::get_mut core::pin::Pin::into_inner
alloc::string::String::as_str alloc::string::String::as_mut_str alloc::vec::Vec::as_slice alloc::vec::Vec::as_mut_slice alloc::string::String::into_boxed_str
alloc::vec::Vec::into_boxed_slice alloc::slice::<impl [T]>::to_vec alloc::slice::<impl [T]>::into_vec alloc::str::<impl str>::to_owned alloc::str::<impl str>::into_string
core::option::Option::as_ref core::option::Option::as_deref core::option::Option::cloned core::option::Option::copied
core::option::Option::as_slice core::result::Result::as_ref core::result::Result::as_deref core::result::Result::cloned core::result::Result::copied
core::future::into_future::IntoFuture::into_future core::iter::traits::iterator::Iterator::by_ref core::iter::traits::iterator::Iterator::cloned
core::iter::traits::iterator::Iterator::copied core::iter::traits::iterator::Iterator::fuse core::slice::<impl [T]>::as_ref
alloc::borrow::Cow::into_owned alloc::borrow::Cow::to_mut alloc::sync::Arc::make_mut alloc::rc::Rc::make_mut alloc::sync::Arc::get_mut_unchecked
core::str::<impl str>::as_bytes alloc::string::String::as_bytes alloc::string::String::into_bytes core::mem::ManuallyDrop::new std::path::Path::new std::path::Path::to_path_buf std::path::PathBuf::as_path
core::ops::deref::Deref::deref alloc::boxed::Box::leak alloc::boxed::Box::as_ref core::convert::identity core::hint::black_box
std::sync::poison::mutex::Mutex::new std::sync::poison::rwlock::RwLock::new core::cell::RefCell::new tokio::sync::mutex::Mutex::new tokio::sync::rwlock::RwLock::new core::cell::Cell::new
alloc::boxed::Box::into_inner alloc::boxed::Box::assume_init core::mem::maybe_uninit::MaybeUninit::new core::mem::maybe_uninit::MaybeUninit::assume_init
core::mem::MaybeUninit::assume_init core::array::<impl [T; N]>::as_slice core::array::<impl [T; N]>::each_ref core::str::traits::<impl str>::as_str core::str::<impl str>::as_str
rayon::iter::ParallelIterator::cloned rayon::iter::ParallelIterator::copied
itertools::Itertools::sorted itertools::Itertools::dedup itertools::free::cloned alloc::sync::Arc::clone alloc::rc::Rc::clone core::iter::sources::once::Once::into_iter
core::slice::iter::Iter::as_slice core::num::NonZero::get core::num::nonzero::NonZero::get""")


def _ident(I, st, args, site, callee, fr):
    v = args[0]
    return [(v, st)]


def _ident_val(I, st, args, site, callee, fr):
    v = args[0]
    if v[0] == "p":
        v = I.deref(v, st)
    return [(v, st)]


for n in IDENT:
    NAT[n] = _ident
for n in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "core::option::Option::cloned", "core::option::Option::copied",
          "core::option::Option::as_ref", "core::option::Option::as_deref"):
    NAT[n] = _ident_val


@nat("core::ops::deref::Deref::deref", "std::sync::lazy_lock::LazyLock::force", "once_cell::sync::Lazy::force")
def deref_lazy(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    if v[0] == "a" and v[1] == "LazyLock":
        f = v[3][0]
        return I.do_call(f, [], st, site, fr)
    if v[0] == "y":
        t = I.tag(v)
        if t[0] == "static":
            body = I.prog.fns.get(t[1])
            if body is not None and body.kind == "static":
                key = ("static", t[1])
                if key not in I.memo:
                    I.memo[key] = T
                    outs = I.exec_fn(body, (), (), {}, (), ())
                    I.memo[key] = I._noptr(outs[0][0]) if outs and len(outs) == 1 else T
                w = I.memo[key]
                if w[0] == "a" and w[1] == "LazyLock":
                    k2 = ("forced", t[1])
                    if k2 not in I.memo:
                        I.memo[k2] = v
                        r = I.do_call(w[3][0], [], State({}, {}), site, fr)
                        I.memo[k2] = I._noptr(r[0][0]) if len(r) == 1 else v
                    return [(I.memo[k2], st)]
                if w[0] != "T":
                    return [(w, st)]
    return [(args[0], st)]


@nat("std::sync::lazy_lock::LazyLock::new", "once_cell::sync::Lazy::new", "std::sync::LazyLock::new")
def lazy_new(I, st, args, site, callee, fr):
    return [(("a", "LazyLock", "", (args[0],)), st)]


@nat("std::sync::once_lock::OnceLock::get_or_init", "once_cell::sync::OnceCell::get_or_init")
def once_init(I, st, args, site, callee, fr):
    return I.do_call(I.deref(args[1], st), [], st, site, fr)


# ------------------------------------------------------------------ conversions
def find_from(I, src, dst):
    """workspace impl From<src> for dst"""
    want = "<%s as core::convert::From<%s>>" % (dst, src)
    for fid, selft, cr, ref in I.prog.impls.get("core::convert::From::from", ()):
        if selft["s"] == dst and ref.endswith("From<%s>>" % src):
            return I.prog.fns.get(fid)
    # generic parameter or lifetime differences: compare without lifetimes
    strip = lambda s: re.sub(r"'\w+ ?", "", s)
    for fid, selft, cr, ref in I.prog.impls.get("core::convert::From::from", ()):
        if strip(selft["s"]) == strip(dst) and strip(ref).endswith("From<%s>>" % strip(src)):
            return I.prog.fns.get(fid)
    return None


def tystr(I, fn, gi, fr):
    t, cr = I.gtype(fn, gi, fr)
    return t["s"]


@nat("core::convert::Into::into")
def into(I, st, args, site, callee, fr):
    g = callee[4]
    if len(g) >= 2:
        s, d = tystr(I, site.fn, g[0], fr), tystr(I, site.fn, g[1], fr)
        b = find_from(I, s, d)
        if b is not None:
            o = I.pol.on_call(I, site, b.id, callee, args, st)
            if o is not None:
                return o
            if I.pol.inline(b):
                r = I.inline(b, args, st, site, fr, (), b.crate)
                if r is not None:
                    return r
            return I.opaque(b.id, callee, args, st, site)
        for fid, selft, cr, ref in I.prog.impls.get("core::convert::Into::into", ()):
            if selft["s"] == s and ref.endswith("Into<%s>>" % d):
                b = I.prog.fns.get(fid)
                if b is not None:
                    return I.inline(b, args, st, site, fr, (), b.crate)
    return [(args[0], st)]


@nat("core::convert::TryInto::try_into")
def try_into(I, st, args, site, callee, fr):
    """the workspace's TryFrom impl of the two types"""
    g = callee[4]
    if len(g) >= 2:
        s, d = tystr(I, site.fn, g[0], fr), tystr(I, site.fn, g[1], fr)
        for fid, selft, cr, ref in I.prog.impls.get("core::convert::TryFrom::try_from", ()):
            if selft["s"] == d and ref.endswith("TryFrom<%s>>" % s):
                b = I.prog.fns.get(fid)
                o = I.pol.on_call(I, site, fid, callee, args, st)
                if o is not None:
                    return o
                if b is not None and I.pol.inline(b):
                    r = I.inline(b, args, st, site, fr, (), b.crate)
                    if r is not None:
                        return r
                return I.opaque(fid, callee, args, st, site)
    return None


@nat("core::convert::From::from")
def from_(I, st, args, site, callee, fr):
    g = callee[4]
    if callee[2] and callee[2] in I.prog.fns:
        return None
    if len(g) >= 2:
        d, s = tystr(I, site.fn, g[0], fr), tystr(I, site.fn, g[1], fr)
        b = find_from(I, s, d)
        if b is not None:
            o = I.pol.on_call(I, site, b.id, callee, args, st)
            if o is not None:
                return o
            if I.pol.inline(b):
                r = I.inline(b, args, st, site, fr, (), b.crate)
                if r is not None:
                    return r
            return I.opaque(b.id, callee, args, st, site)
    return [(args[0], st)]


@nat("core::ops::try_trait::FromResidual::from_residual")
def from_residual(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    g = callee[4]
    if v[0] == "a" and v[1] == RES:
        e = v[3][0]
        if len(g) >= 2:
            d, dc = I.gtype(site.fn, g[0], fr)
            s, sc = I.gtype(site.fn, g[1], fr)
            if d.get("adt") == RES and s.get("adt") == RES and len(d["a"]) > 1 and len(s["a"]) > 1:
                dt, stt = I.prog.ty(dc, d["a"][1]), I.prog.ty(sc, s["a"][1])
                if dt["s"] != stt["s"]:
                    b = find_from(I, stt["s"], dt["s"])
                    if b is not None and I.pol.inline(b):
                        r = I.inline(b, [e], st, site, fr, (), b.crate)
                        if r is not None:
                            return [(Err(x), s2) for x, s2 in r]
        return [(Err(e), st)]
    if v[0] == "a" and v[1] == OPT:
        return [(NONE, st)]
    return [(v, st)]


@nat("alloc::string::ToString::to_string")
def to_string(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    g = callee[4]
    if g:
        t, cr = I.gtype(site.fn, g[0], fr)
        while t.get("k") == "ref":
            t = I.prog.ty(cr, t["a"][0])
        if t.get("k") == "str" or t.get("adt") in ("alloc::string::String",):
            return [(v, st)]
        # Display of a workspace type
        r = display(I, v, t, st, site, fr)
        if r is not None:
            return r
    if v[0] in ("s",):
        return [(v, st)]
    if v[0] == "i":
        return [(("s", str(v[1])), st)]
    if v[0] == "y":
        return [(I.sym("str", v), st)]
    if not has_ptr(v) and v[0] != "T":
        return [(I.sym("str", v), st)]
    return [(T, st)]


def display(I, v, t, st, site, fr, tr="core::fmt::Display"):
    """inline `Display::fmt` of a workspace type, collecting what it writes"""
    if not getattr(I.pol, "inline_display", False):
        return None
    if v[0] == "a" and v[1] == "FAILURE":        # a failure of a mocked operation: its text is opaque
        return [(("s", "failed"), st)]
    for fid, selft, cr, ref in I.prog.impls.get(tr + "::fmt", ()):
        if selft["s"] == t["s"] or (selft.get("adt") and selft.get("adt") == t.get("adt")):
            b = I.prog.fns.get(fid)
            if b is None:
                return None
            # formatter cell: a buffer
            cell = 900000
            ns = st.fork()
            while cell in ns.env:
                cell += 1
            ns.env[cell] = ("s", "")
            r = I.inline(b, [v, ("p", cell, ())], ns, site, fr, (), b.crate)
            if r is None:
                return None
            out = []
            for ret, s2 in r:
                buf = s2.env.pop(cell, T)
                out.append((buf, s2))
            return out
    return None


# ------------------------------------------------------------------ Option/Result/Iterator models
OPTION_M = set("map and_then ok_or ok_or_else unwrap_or unwrap_or_else unwrap_or_default is_some is_none is_some_and is_none_or map_or "
               "map_or_else or or_else and xor zip filter flatten transpose unwrap take replace inspect iter".split())
RESULT_M = set("map map_err and_then or_else and or ok err unwrap_or unwrap_or_else unwrap_or_default is_ok is_err is_ok_and is_err_and map_or "
               "map_or_else transpose unwrap inspect inspect_err flatten iter".split())
ITER_M = set("map filter filter_map map_while flat_map flatten chain zip enumerate peekable inspect take_while skip_while take skip any all find find_map "
             "position count last nth fold reduce for_each partition unzip sum".split())


def model(p, name, I, args, st, callee):
    n = norm(p)
    if n.startswith("core::option::Option::"):
        m = n.rsplit("::", 1)[1]
        if m == "expect":
            return "m_option_unwrap1"
        return "m_option_" + m if m in OPTION_M else None
    if n.startswith("core::result::Result::"):
        m = n.rsplit("::", 1)[1]
        if m == "expect":
            return "m_result_unwrap1"
        return "m_result_" + m if m in RESULT_M else None
    if n.startswith(("core::iter::traits::iterator::Iterator::", "rayon::iter::ParallelIterator::", "rayon::iter::IndexedParallelIterator::", "core::iter::traits::double_ended::DoubleEndedIterator::")):
        m = n.rsplit("::", 1)[1]
        m = {"rfind": "find", "rfold": "fold", "for_each_with": None, "flat_map_iter": "flat_map"}.get(m, m)
        return "m_iter_" + m if m in ITER_M else None
    if n == "core::bool::<impl bool>::then":
        return "m_bool_then"
    if n == "core::bool::<impl bool>::then_some":
        return "m_bool_then_some"
    if n == "core::iter::traits::collect::Extend::extend":
        return "m_extend"
    if n == "alloc::vec::Vec::retain":
        return "m_vec_retain"
    if n == "core::iter::adapters::peekable::Peekable::peek":
        return "m_peekable_peek"
    return None


def call_model(I, m, args, st, site, fr, callee):
    mf = I.prog.fns["vmodels::" + m]
    g = callee[4] if callee[0] == "f" else ()
    r = I.inline(mf, args, st, site, fr, g if len(g) == len(mf.gen) else (), callee[3] if callee[0] == "f" else mf.crate)
    if r is None:
        return I.opaque(m, callee, args, st, site)
    return r


@nat("core::ops::try_trait::Try::branch")
def branch(I, st, args, site, callee, fr):
    t, cr = I.gtype(site.fn, callee[4][0], fr)
    v = I.deref(args[0], st)
    adt = v[1] if v[0] == "a" else t.get("adt")
    m = {RES: "m_branch_result", OPT: "m_branch_option", CF: "m_branch_cf"}.get(adt)
    if m is None:
        return I.opaque(callee[1], callee, args, st, site)
    return call_model(I, m, [v], st, site, fr, callee)


@nat("core::ops::try_trait::Try::from_output")
def from_output(I, st, args, site, callee, fr):
    t, cr = I.gtype(site.fn, callee[4][0], fr)
    if t.get("adt") == RES:
        return [(Ok(args[0]), st)]
    if t.get("adt") == OPT:
        return [(Some(args[0]), st)]
    return [(("a", CF, "Continue", (args[0],)), st)]


def seq_kind(I, site, gi, fr):
    t, cr = I.gtype(site.fn, gi, fr)
    return t, cr


@nat("core::iter::traits::iterator::Iterator::collect", "rayon::iter::ParallelIterator::collect", "itertools::Itertools::collect_vec",
     "itertools::Itertools::try_collect")
def collect(I, st, args, site, callee, fr):
    g = callee[4]
    if len(g) >= 2:
        itc = callee[1].startswith("itertools::") and callee[1].endswith("try_collect")      # <Self, T, U, E>
        t, cr = I.gtype(site.fn, g[2] if itc and len(g) >= 3 else g[1], fr)
        if itc:
            m = "m_iter_collect_result"
        elif t.get("adt") == RES:
            m = "m_iter_collect_result"
        elif t.get("adt") == OPT:
            m = "m_iter_collect_option"
        else:
            m = "m_iter_collect_seq"
            if t.get("adt") == "alloc::string::String":
                r = call_model(I, m, args, st, site, fr, callee)
                def text(v):
                    if v[0] == "L" and all(x[0] in ("ch", "s") for x in v[1]):
                        return ("s", "".join(x[1] for x in v[1]))
                    return I.sym("strof", I._noptr(v)) if v[0] != "T" else T
                return [(text(v), s) for v, s in r]
        if I.pol.exact:
            if m != "m_iter_collect_seq" and not itc:
                t = I.prog.subty(cr, t) or {}
            out = []
            for v, s in call_model(I, m, args, st, site, fr, callee):
                if m == "m_iter_collect_seq":
                    out += built(I, t, v, s, site, fr, callee)
                elif v[0] == "a" and v[2] in ("Ok", "Some"):
                    out += [(("a", v[1], v[2], (x,)), s2) for x, s2 in built(I, t, v[3][0], s, site, fr, callee)]
                else:
                    out.append((v, s))
            return out
    else:
        m = "m_iter_collect_seq"
    return call_model(I, m, args, st, site, fr, callee)


def built(I, t, v, st, site, fr, callee):
    """the collection of type t made from the elements of the list v"""
    adt = t.get("adt") or ""
    if v[0] != "L":
        return [(v, st)]
    if adt in SEQ_ADTS and adt.endswith(("Set", "Map")):
        return dedupe(I, v, st, adt.endswith("Set"))
    for fid, selft, c, ref in I.prog.impls.get("core::iter::traits::collect::FromIterator::from_iter", ()):
        if selft.get("adt") == adt and adt not in SEQ_ADTS:
            b = I.prog.fns.get(fid)
            r = I.inline(b, [("it", v)], st, site, fr, (), b.crate) if b is not None else None
            if r is not None:
                return r
    return [(v, st)]


def dedupe(I, v, st, isset):
    cur = [(("L", ()), st)]
    for x in v[1]:
        nxt = []
        if not isset and not (x[0] == "t" and len(x[1]) == 2):
            return [(v, st)]
        for w, s in cur:
            r = find_key(I, w, x if isset else x[1][0], s, isset)
            if r is None:
                return [(v, st)]
            for i, s2 in r:
                if i is None:
                    nxt.append((("L", w[1] + (x,)), s2))
                else:
                    nxt.append((w if isset else ("L", w[1][:i] + (("t", (w[1][i][1][0], x[1][1])),) + w[1][i + 1:]), s2))
        cur = nxt
    return cur


@nat("core::iter::traits::collect::FromIterator::from_iter")
def from_iter(I, st, args, site, callee, fr):
    if not I.pol.exact or (callee[2] and callee[2] in I.prog.fns):
        return None
    t, cr = I.gtype(site.fn, callee[4][0], fr)
    if t.get("adt") not in SEQ_ADTS:
        return None
    out = []
    for v, s in call_model(I, "m_from_iter", args, st, site, fr, callee):
        out += built(I, t, v, s, site, fr, callee)
    return out


@nat("core::iter::traits::iterator::Iterator::try_for_each", "core::iter::traits::iterator::Iterator::try_fold")
def tryfold(I, st, args, site, callee, fr):
    g = callee[4]
    t, cr = I.gtype(site.fn, g[-1], fr)
    k = callee[1].rsplit("::", 1)[1]
    if t.get("adt") == RES:
        m = "m_iter_%s_result" % k
    elif t.get("adt") == OPT and k == "try_fold":
        m = "m_iter_try_fold_option"
    else:
        return I.opaque(callee[1], callee, args, st, site)
    return call_model(I, m, args, st, site, fr, callee)


@nat("core::iter::traits::iterator::Iterator::max", "core::iter::traits::iterator::Iterator::min", "core::iter::traits::iterator::Iterator::max_by_key",
     "core::iter::traits::iterator::Iterator::min_by_key", "core::iter::traits::iterator::Iterator::max_by", "core::iter::traits::iterator::Iterator::min_by")
def maxmin(I, st, args, site, callee, fr):
    if I.pol.exact:
        return call_model(I, "m_iter_" + callee[1].rsplit("::", 1)[1], args, st, site, fr, callee)
    return I.opaque(callee[1], callee, args, st, site)


# ------------------------------------------------------------------ sequences
SEQ_NEW = names("""alloc::vec::Vec::new alloc::vec::Vec::with_capacity std::collections::hash::map::HashMap::new std::collections::hash::set::HashSet::new
std::collections::hash::map::HashMap::with_capacity std::collections::hash::set::HashSet::with_capacity
alloc::collections::btree::map::BTreeMap::new alloc::collections::btree::set::BTreeSet::new alloc::collections::vec_deque::VecDeque::new
indexmap::map::IndexMap::new indexmap::set::IndexSet::new alloc::collections::vec_deque::VecDeque::with_capacity core::iter::sources::empty::empty alloc::collections::linked_list::LinkedList::new
alloc::collections::binary_heap::BinaryHeap::new hashbag::HashBag::new""")


def _seqnew(I, st, args, site, callee, fr):
    return [(("L", ()), st)]


for n in SEQ_NEW:
    NAT[n] = _seqnew


@nat("alloc::string::String::new", "alloc::string::String::with_capacity")
def string_new(I, st, args, site, callee, fr):
    return [(("s", ""), st)]


@nat("core::iter::sources::once::once")
def once(I, st, args, site, callee, fr):
    return [(("it", ("L", (args[0],))), st)]


@nat("alloc::vec::from_elem")
def from_elem(I, st, args, site, callee, fr):
    return [(I.mkV("?", [args[0]]), st)]


SEQ_ADTS = ("alloc::vec::Vec", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "alloc::collections::btree::map::BTreeMap",
            "alloc::collections::btree::set::BTreeSet", "alloc::collections::vec_deque::VecDeque", "indexmap::map::IndexMap", "indexmap::set::IndexSet")


@nat("core::default::Default::default")
def default(I, st, args, site, callee, fr):
    if callee[2] and callee[2] in I.prog.fns:
        return None
    t, cr = I.gtype(site.fn, callee[4][0], fr)
    k = t.get("k")
    if t.get("adt") in SEQ_ADTS or k == "slice":
        return [(("L", ()), st)]
    if t.get("adt") == "alloc::string::String" or k == "str":
        return [(("s", ""), st)]
    if t.get("adt") == OPT:
        return [(NONE, st)]
    if k == "bool":
        return [(FALSE, st)]
    if k == "int":
        return [(("i", 0), st)]
    if k == "tuple":
        return [(UNIT, st)] if not t.get("a") else None
    for fid, selft, c, ref in I.prog.impls.get("core::default::Default::default", ()):
        if selft["s"] == t["s"]:
            b = I.prog.fns.get(fid)
            if b is not None:
                return I.inline(b, [], st, site, fr, (), b.crate)
    return [(I.sym("default", t["s"]), st)]


def seq_push(I, v, x):
    if I.pol.coarse is not None and v[0] in "LV":
        return I.mkV("?", {I.pol.coarse(I, y) for y in v[1 if v[0] == "L" else 2]} | {I.pol.coarse(I, x)})
    if v[0] == "L":
        if len(v[1]) < 4 or (len(v[1]) < 64 and not _in_loop_growth(v[1], x, I.pol.seq_cap)):
            return ("L", v[1] + (x,))
        I.widened += 1
        return I.mkV("+", set(v[1]) | {x})
    if v[0] == "V":
        return I.mkV("+", set(v[2]) | {x})
    if v[0] == "it":
        return T
    return None


def _in_loop_growth(items, x, cap):
    return (items.count(x) >= 2 and cap <= 8) or len(items) >= cap


PUSH = """alloc::vec::Vec::push alloc::collections::vec_deque::VecDeque::push_back alloc::collections::vec_deque::VecDeque::push_front"""
INSERT = """std::collections::hash::set::HashSet::insert alloc::collections::btree::set::BTreeSet::insert indexmap::set::IndexSet::insert"""
MINSERT = """std::collections::hash::map::HashMap::insert alloc::collections::btree::map::BTreeMap::insert indexmap::map::IndexMap::insert"""


def find_key(I, v, k, st, isset):
    """position of k among the elements (keys) of an exact collection: [(index | None, state)], or None if undecidable"""
    out, cur = [], [st]
    for i, it in enumerate(v[1]):
        if not isset and not (it[0] == "t" and len(it[1]) == 2):
            return None
        q = it if isset else it[1][0]
        nxt = []
        for s in cur:
            r = struct_eq(I, I.deref(q, s), I.deref(k, s), s)
            if r[0] not in ("b", "y"):
                return None
            for b, s2 in I.split_bool(r, s):
                if b:
                    out.append((i, s2))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(None, s) for s in cur]


@pat(r"^(std::collections|alloc::collections|indexmap)::.*Set::(union|intersection|difference|symmetric_difference|is_subset|is_superset|is_disjoint)$")
def set_op(I, st, args, site, callee, fr):
    """operations on exact sets of elements whose equality is decided"""
    m = callee[1].rsplit("::", 1)[1]
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    if not I.pol.exact or a[0] != "L" or b[0] != "L":
        return I.opaque(callee[1], callee, args, st, site)

    def has(v, x):
        r = find_key(I, v, x, st, True)
        return None if r is None or len(r) != 1 else r[0][0] is not None
    ia, ib = [has(b, x) for x in a[1]], [has(a, x) for x in b[1]]
    if None in ia or None in ib:
        return I.opaque(callee[1], callee, args, st, site)
    bb = lambda x: [(TRUE if x else FALSE, st)]
    if m == "is_subset":
        return bb(all(ia))
    if m == "is_superset":
        return bb(all(ib))
    if m == "is_disjoint":
        return bb(not any(ia))
    onlya = tuple(x for x, h in zip(a[1], ia) if not h)
    onlyb = tuple(x for x, h in zip(b[1], ib) if not h)
    r = {"union": a[1] + onlyb, "intersection": tuple(x for x, h in zip(a[1], ia) if h), "difference": onlya, "symmetric_difference": onlya + onlyb}[m]
    return [(("it", ("L", r)), st)]


@pat(r"^(std::collections|alloc::collections|indexmap)::.*Map::(entry|get_mut)$")
def map_entry(I, st, args, site, callee, fr):
    if not I.pol.exact or args[0][0] != "p":
        return access(I, st, args, site, callee, fr) if callee[1].endswith("get_mut") else I.opaque(callee[1], callee, args, st, site)
    cell, proj = final_ptr(I, args[0], st)
    v = I.read_cell(cell, proj, st)
    k = I.deref(args[1], st)
    r = find_key(I, v, k, st, False) if v[0] == "L" else None
    if r is None:
        return I.opaque(callee[1], callee, args, st, site)
    proj = tuple(proj)
    if callee[1].endswith("get_mut"):
        return [(NONE if i is None else Some(("p", cell, proj + (("c", i, False), ("f", 1, None)))), s) for i, s in r]
    adt = ENTRY[2] if callee[1].startswith("indexmap") else ENTRY[1] if "btree" in callee[1] else ENTRY[0]
    return [(("a", adt, "Vacant" if i is None else "Occupied", (("t", (("s", "#entry"), ("p", cell, proj), k, NONE if i is None else ("i", i))),)), s) for i, s in r]


ENTRY = ("std::collections::hash::map::Entry", "alloc::collections::btree::map::entry::Entry", "indexmap::map::entry::Entry")


@pat(r"^(std::collections|alloc::collections|indexmap)::.*(Vacant|Occupied)Entry::(insert|insert_entry|get|get_mut|into_mut|key)$")
def entry_of(I, st, args, site, callee, fr):
    """methods of a vacant or occupied entry"""
    e = I.deref(args[0], st)
    m = callee[1].rsplit("::", 1)[1]
    if e[0] != "t" or e[1][0] != ("s", "#entry"):
        return I.opaque(callee[1], callee, args, st, site)
    _, p, k, i = e[1]
    if m == "key":
        return [(k, st)]
    slot = lambda n: ("p", p[1], p[2] + (("c", n, False), ("f", 1, None)))
    if m in ("get", "get_mut", "into_mut"):
        return [(slot(i[1]), st)]
    s = st.fork()
    v = I.read_cell(p[1], p[2], s)
    if v[0] != "L":
        return I.opaque(callee[1], callee, args, st, site)
    if i == NONE:
        I.write_cell(p[1], p[2], ("L", v[1] + (("t", (k, args[1])),)), s)
        return [(slot(len(v[1])), s)]
    q = slot(i[1])
    old = I.read_cell(q[1], q[2], s)
    I.write_cell(q[1], q[2], args[1], s)
    return [(old, s)]


@pat(r"^(std::collections|alloc::collections|indexmap)::.*Entry::(or_default|or_insert|or_insert_with|and_modify)$")
def entry_or(I, st, args, site, callee, fr):
    e0 = e = args[0]
    if e[0] == "a" and e[1] in ENTRY and len(e[3]) == 1:
        e = e[3][0]
    if e[0] != "t" or e[1][0] != ("s", "#entry"):
        return I.opaque(callee[1], callee, args, st, site)
    _, p, k, i = e[1]
    m = callee[1].rsplit("::", 1)[1]
    slot = lambda n: ("p", p[1], p[2] + (("c", n, False), ("f", 1, None)))
    if m == "and_modify":
        if i == NONE:
            return [(e0, st)]
        return [(e0, s) for _, s in I.call_closure(args[1], args[1], [slot(i[1])], st, site, fr)]
    if i != NONE:
        return [(slot(i[1]), st)]
    if m == "or_default":
        t, cr = I.gtype(site.fn, callee[4][-1], fr)
        cands = [I.gtype(site.fn, g, fr)[0] for g in callee[4]]
        t = [t for t in cands if t.get("k") not in ("region", None)]
        t = t[1] if len(t) > 1 else (t[-1] if t else {})
        d = ("L", ()) if t.get("adt") in SEQ_ADTS else ("i", 0) if t.get("k") == "int" else ("s", "") if t.get("adt") == "alloc::string::String" else FALSE if t.get("k") == "bool" else I.sym("default", t.get("s", "?"))
        outs = [(d, st)]
    elif m == "or_insert":
        outs = [(args[1], st)]
    else:
        outs = I.call_closure(args[1], args[1], [], st, site, fr)
    res = []
    for d, s in outs:
        s = s.fork()
        v = I.read_cell(p[1], p[2], s)
        if v[0] != "L":
            return I.opaque(callee[1], callee, args, st, site)
        I.write_cell(p[1], p[2], ("L", v[1] + (("t", (k, d)),)), s)
        res.append((slot(len(v[1])), s))
    return res


def _push(I, st, args, site, callee, fr):
    x = args[-1] if len(args) == 2 else ("t", tuple(args[1:]))
    n = norm(callee[1])
    isset = n in names(INSERT)
    ismap = n in names(MINSERT)
    if args[0][0] != "p":
        return I.opaque(callee[1], callee, args, st, site)
    ns = st.fork()
    cell, proj = final_ptr(I, args[0], ns)
    v = I.read_cell(cell, proj, ns)
    if v[0] == "L" and isset and x in v[1] and not has_ptr(x):
        return [(FALSE, ns)]
    if I.pol.exact and v[0] == "L" and (isset or ismap) and len(v[1]) <= 8 and len(v[1]) < 64:
        r = find_key(I, v, x if isset else x[1][0], ns, isset)
        if r is not None:
            out = []
            for i, s in r:
                s = s.fork()
                if i is None:
                    I.write_cell(cell, proj, ("L", v[1] + (x,)), s)
                    out.append((TRUE if isset else NONE, s))
                elif isset:
                    out.append((FALSE, s))
                else:
                    it = v[1][i]
                    I.write_cell(cell, proj, ("L", v[1][:i] + (("t", (it[1][0], x[1][1])),) + v[1][i + 1:]), s)
                    out.append((Some(it[1][1]), s))
            return out
    if ismap and v[0] == "L":
        items = [it for it in v[1] if not (it[0] == "t" and it[1][0] == x[1][0])]
        v = ("L", tuple(items))
    nv = seq_push(I, v, x)
    if nv is None:
        # opaque sequence: remember the addition
        xx = I._noptr(x)
        nv = I.sym("push", v, xx) if v[0] == "y" and not (I.tag(v)[0] == "push") else (I.sym("pushes", v) if v[0] == "y" else T)
    I.write_cell(cell, proj, nv, ns)
    if isset:
        b = I.sym("inserted", site.fn.id, site.bb, fr.ctx)
        I.purge(ns, b)
        return [(b, ns)]
    if ismap:
        b = I.sym("replaced", site.fn.id, site.bb, fr.ctx)
        I.purge(ns, b)
        return [(b, ns)]
    return [(UNIT, ns)]


for n in names(PUSH + " " + INSERT + " " + MINSERT):
    NAT[n] = _push


def final_ptr(I, p, st):
    cell, proj = p[1], p[2]
    for _ in range(20):
        v = I.read_cell(cell, proj, st)
        if v[0] != "p":
            break
        cell, proj = v[1], v[2]
    return cell, proj


@nat("alloc::vec::Vec::append", "alloc::vec::Vec::extend_from_slice")
def append(I, st, args, site, callee, fr):
    ns = st.fork()
    if args[0][0] != "p":
        return I.opaque(callee[1], callee, args, st, site)
    cell, proj = final_ptr(I, args[0], ns)
    a = I.read_cell(cell, proj, ns)
    b = I.deref(args[1], ns)
    if a[0] == "L" and b[0] == "L":
        nv = ("L", a[1] + b[1])
    elif a[0] in "LV" and b[0] in "LV":
        e = "+" if (a[0] == "L" and a[1]) or (a[0] == "V" and a[1] == "+") or (b[0] == "L" and b[1]) or (b[0] == "V" and b[1] == "+") else "?"
        nv = I.mkV(e, set(a[1] if a[0] == "L" else a[2]) | set(b[1] if b[0] == "L" else b[2]))
    elif a == ("L", ()):
        nv = b
    else:
        nv = I.sym("concat", I._noptr(a), I._noptr(b)) if T not in (a, b) else T
    I.write_cell(cell, proj, nv, ns)
    if args[1][0] == "p" and norm(callee[1]).endswith("append"):
        I.write_cell(args[1][1], args[1][2], ("L", ()), ns)
    return [(UNIT, ns)]


@pat(r"::(is_empty)$")
def is_empty(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns or callee[1] in I.prog.fns or len(args) != 1:
        return None
    v = I.deref(args[0], st)
    if v[0] == "s":
        return [(("b", v[1] == ""), st)]
    if v[0] == "L":
        return [(("b", not v[1]), st)]
    if v[0] == "V":
        if v[1] == "+":
            return [(FALSE, st)]
        y = I.sym("isempty", site.fn.id, site.bb, fr.ctx)
        ns = st.fork()
        I.purge(ns, y)
        return [(y, ns)]
    if v[0] == "y":
        t = I.tag(v)
        if t[0] in ("push", "pushes"):
            return [(FALSE, st)]
        return [(I.compare("Eq", I.sym("len", v), ("i", 0), st), st)]
    return [(T, st)]


@pat(r"(^alloc::|^core::slice|^std::collections|^indexmap|^core::str|^alloc::string|ExactSizeIterator).*::len$")
def len_(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    if v[0] == "it":
        v = v[1]
    return [(I.len_of(v, st), st)]


ITER_MK = names("""rayon::iter::IntoParallelIterator::into_par_iter rayon::iter::IntoParallelRefIterator::par_iter rayon::iter::IntoParallelRefMutIterator::par_iter_mut rayon::iter::par_bridge::ParallelBridge::par_bridge
core::slice::<impl [T]>::iter core::slice::<impl [T]>::iter_mut core::iter::traits::collect::IntoIterator::into_iter
std::collections::hash::set::HashSet::iter std::collections::hash::map::HashMap::iter alloc::collections::btree::map::BTreeMap::iter
alloc::collections::btree::set::BTreeSet::iter indexmap::map::IndexMap::iter indexmap::set::IndexSet::iter alloc::collections::vec_deque::VecDeque::iter
alloc::vec::Vec::drain std::collections::hash::map::HashMap::drain std::collections::hash::set::HashSet::drain std::collections::hash::map::HashMap::iter_mut indexmap::map::IndexMap::iter_mut
alloc::vec::Vec::into_iter alloc::collections::btree::map::BTreeMap::into_iter core::array::<impl [T; N]>::iter""")


def mkiter(I, st, args, site, callee, fr):
    v = args[0]
    if v[0] == "p":
        w = I.deref(v, st)
        if w[0] == "it" or (w[0] == "a" and is_iter_adt(I, w[1])):
            return [(v, st)]   # &mut iterator
        if "drain" in callee[1]:
            ns = st.fork()
            c, pr = final_ptr(I, v, ns)
            I.write_cell(c, pr, ("L", ()), ns)
            return [(("it", w), ns)]
        if w[0] == "y":
            # iterating an opaque iterator/collection by &mut
            return [(("it", w), st)]
        if w[0] == "L" and I.pol.exact:
            mut = callee[1].endswith("iter_mut")
            if callee[1].endswith("IntoIterator::into_iter") and callee[4]:
                t0, _ = I.gtype(site.fn, callee[4][0], fr)
                mut = t0.get("k") == "ref" and bool(t0.get("m"))
            if mut:
                c, pr = final_ptr(I, v, st)
                ismap = "map" in callee[1] or (callee[1].endswith("into_iter") and any(m in t0.get("s", "") for m in ("Map<", "map::")))
                at = lambda i, *more: ("p", c, tuple(pr) + (("c", i, False),) + more)
                return [(("it", ("L", tuple(("t", (x[1][0], at(i, ("f", 1, None)))) if ismap else at(i) for i, x in enumerate(w[1])))), st)]
        v = w
    if v[0] == "it":
        return [(v, st)]
    if v[0] == "a":
        if v[1] == OPT:
            return [(("it", ("L", v[3])), st)]
        if v[1] == RES:
            return [(("it", ("L", v[3] if v[2] == "Ok" else ())), st)]
        if is_iter_adt(I, v[1]):
            return [(v, st)]
        if v[1] == "core::ops::range::Range":
            lo, hi = (I.deref(x, st) for x in v[3])
            if I.pol.exact and lo[0] == hi[0] == "i" and hi[1] - lo[1] <= I.pol.seq_cap:
                return [(("it", ("L", tuple(("i", i) for i in range(lo[1], hi[1])))), st)]
            return [(("it", I.sym("range", I._noptr(v))), st)]
        return None
    if v[0] == "y":
        t0, cr = I.gtype(site.fn, callee[4][0], fr) if callee[4] else ({}, None)
        while t0.get("k") == "ref":
            t0 = I.prog.ty(cr, t0["a"][0])
        if t0.get("adt") in (OPT, RES):
            out = []
            for n, x, s in I.split_variant(v, t0["adt"], st):
                out.append((("it", ("L", (I.payload(x, n),) if n in ("Some", "Ok") else ())), s))
            return out
        return [(("it", v), st)]
    return [(("it", v), st)]


def is_iter_adt(I, path):
    if path.startswith("vmodels::"):
        return True
    return any(x[1].get("adt") == path for x in I.prog.impls.get("core::iter::traits::iterator::Iterator::next", ()))


for n in ITER_MK:
    NAT[n] = mkiter


@pat(r"::(keys|values|into_keys|into_values|values_mut)$")
def keys_values(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns or callee[1] in I.prog.fns:
        return None
    v = I.deref(args[0], st)
    k = 0 if callee[1].endswith("keys") else 1
    if callee[1].endswith("values_mut") and I.pol.exact and v[0] == "L" and args[0][0] == "p":
        c, pr = final_ptr(I, args[0], st)
        return [(("it", ("L", tuple(("p", c, tuple(pr) + (("c", i, False), ("f", 1, None))) for i in range(len(v[1]))))), st)]
    if v[0] == "L" and all(x[0] == "t" for x in v[1]):
        return [(("it", ("L", tuple(x[1][k] for x in v[1]))), st)]
    if v[0] == "V" and all(x[0] == "t" for x in v[2]):
        return [(("it", ("V", v[1], frozenset(x[1][k] for x in v[2]))), st)]
    if v[0] == "y":
        return [(("it", I.sym("keys" if k == 0 else "values", v)), st)]
    return [(("it", T), st)]


@nat("core::iter::traits::iterator::Iterator::rev")
def rev(I, st, args, site, callee, fr):
    v = args[0]
    if v[0] == "it" and v[1][0] == "L":
        return [(("it", ("L", tuple(reversed(v[1][1])))), st)]
    return [(v, st)]


@nat("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def next_(I, st, args, site, callee, fr):
    p = args[0]
    if p[0] != "p":
        v = p
        cell = None
    else:
        cell, proj = final_ptr(I, p, st)
        v = I.read_cell(cell, proj, st)
    if v[0] == "a" and (v[1].startswith("vmodels::") or is_iter_adt(I, v[1])):
        for fid, selft, cr, ref in I.prog.impls.get("core::iter::traits::iterator::Iterator::next", ()):
            if selft.get("adt") == v[1]:
                b = I.prog.fns[fid]
                r = I.inline(b, [("p", cell, tuple(proj)) if cell is not None else v], st, site, fr, (), b.crate)
                if r is not None:
                    return r
        return I.opaque(callee[1], callee, args, st, site)
    if v[0] == "a" and v[1] in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
        ns0, ns1 = st.fork(), st.fork()
        y = I.sym("rangeidx", site.fn.id, site.bb, fr.ctx)
        I.purge(ns1, y)
        return [(NONE, ns0), (Some(y), ns1)]
    seq = v[1] if v[0] == "it" else v
    if seq[0] == "p":
        seq = I.deref(seq, st)
        if seq[0] == "it":
            seq = seq[1]
    out = []
    if seq[0] == "L":
        ns = st.fork()
        if not seq[1]:
            I.pol.on_next(I, seq, "none", ns)
            return [(NONE, ns)]
        x = seq[1][0]
        if cell is not None:
            I.write_cell(cell, proj, ("it", ("L", seq[1][1:])), ns)
        I.pol.on_next(I, seq, "some", ns)
        return [(Some(x), ns)]
    if seq[0] == "V":
        must = [x for x in seq[2] if I.pol.must_visit(I, x)]
        if seq[1] != "+" and not must:
            ns = st.fork()
            if cell is not None:
                I.write_cell(cell, proj, ("it", ("L", ())), ns)
            I.pol.on_next(I, seq, "none", ns)
            out.append((NONE, ns))
        for x in sorted(seq[2], key=repr):
            ns = st.fork()
            if cell is not None:
                I.write_cell(cell, proj, ("it", ("V", "?", seq[2] - {x} if x in must else seq[2])), ns)
            I.pol.on_next(I, seq, "some", ns)
            out.append((Some(x), ns))
        return out
    if seq[0] == "y":
        # nonemptiness known?
        ns = st.fork()
        s = I.ord_set(I.sym("len", seq), ("i", 0), ns)
        started = ns.G.get(("started", seq))
        if "E" in s or started:
            I.pol.on_next(I, seq, "none", ns)
            if cell is not None:
                I.write_cell(cell, proj, ("it", ("L", ())), ns)
            if not started:
                I.set_ord(I.sym("len", seq), ("i", 0), frozenset("E"), ns)
            out.append((NONE, ns))
        if "G" in s or started:
            ns = st.fork()
            y = I.sym("elem", seq)
            I.purge(ns, y)
            if not started:
                I.set_ord(I.sym("len", seq), ("i", 0), frozenset("G"), ns)
            # position in the iteration is kept in the iterator value, not in the facts
            if cell is not None:
                I.write_cell(cell, proj, ("it", I.sym("rest", seq) if I.tag(seq)[0] != "rest" else seq), ns)
            if I.tag(seq)[0] == "rest":
                y = I.sym("elem", I.tag(seq)[1])
                I.purge(ns, y)
            I.pol.on_next(I, seq, "some", ns)
            out.append((Some(y), ns))
        return out
    y = I.sym("elem", "?", site.fn.id, site.bb, fr.ctx)
    n0, n1 = st.fork(), st.fork()
    I.purge(n1, y)
    I.pol.on_next(I, seq, "none", n0)
    I.pol.on_next(I, seq, "some", n1)
    return [(NONE, n0), (Some(y), n1)]


@pat(r"(^alloc::|^core::slice|^std::collections|^indexmap).*::(first|last|pop|pop_front|pop_back|get|get_mut|remove|get_index|iter_next|swap_remove|shift_remove|shift_remove_index|take|peek)$")
def access(I, st, args, site, callee, fr):
    m = callee[1].rsplit("::", 1)[1]
    v = I.deref(args[0], st)
    if m in ("remove", "swap_remove", "shift_remove") and I.pol.exact and v[0] == "L" and len(args) > 1 and args[0][0] == "p" and "Map::" in callee[1] and all(x[0] == "t" and len(x[1]) == 2 for x in v[1]):
        r = find_key(I, v, I.deref(args[1], st), st, False)
        if r is not None:
            out = []
            for i, s in r:
                if i is not None:
                    s = s.fork()
                    c, pr = final_ptr(I, args[0], s)
                    rest = v[1][:i] + v[1][i + 1:]
                    if callee[1].startswith("indexmap") and m != "shift_remove" and i < len(v[1]) - 1:
                        rest = v[1][:i] + v[1][-1:] + v[1][i + 1:-1]
                    I.write_cell(c, pr, ("L", rest), s)
                out.append((NONE if i is None else Some(v[1][i][1][1]), s))
            return out
    if m == "shift_remove_index" and I.pol.exact and v[0] == "L" and args[0][0] == "p" and I.deref(args[1], st)[0] == "i":
        i = I.deref(args[1], st)[1]
        if i >= len(v[1]):
            return [(NONE, st)]
        s = st.fork()
        c, pr = final_ptr(I, args[0], s)
        I.write_cell(c, pr, ("L", v[1][:i] + v[1][i + 1:]), s)
        return [(Some(v[1][i]), s)]
    if m in ("get", "get_mut", "remove", "swap_remove", "shift_remove", "take") and v[0] == "L" and len(args) > 1:
        k = I.deref(args[1], st)
        if callee[1].startswith("core::slice"):
            if k[0] == "i":
                x = v[1][k[1]] if 0 <= k[1] < len(v[1]) else None
                return [(Some(x) if x is not None else NONE, st)]
        elif all(x[0] == "t" for x in v[1]):
            if not v[1]:
                return [(NONE, st)]
            hit = [x[1][1] for x in v[1] if x[1][0] == k]
            if hit and m == "get":
                return [(Some(hit[-1]), st)]
            if I.pol.exact and m == "get" and all(len(x[1]) == 2 for x in v[1]):
                r = find_key(I, v, k, st, False)
                if r is not None:
                    return [(NONE if i is None else Some(v[1][i][1][1]), s) for i, s in r]
            if k[0] in ("s", "i", "a") and all(x[1][0][0] == k[0] for x in v[1]) and not I.mentions(k, lambda q: q[0] == "y") and not any(I.mentions(x[1][0], lambda q: q[0] == "y") for x in v[1]):
                return [(NONE, st)]
    if m in ("first", "last", "pop", "pop_front", "pop_back"):
        if v[0] == "L":
            if not v[1]:
                return [(NONE, st)]
            i = 0 if m in ("first", "pop_front") else -1
            x = v[1][i]
            ns = st
            if m.startswith("pop") and args[0][0] == "p":
                ns = st.fork()
                c, pr = final_ptr(I, args[0], ns)
                I.write_cell(c, pr, ("L", v[1][1:] if i == 0 else v[1][:-1]), ns)
            return [(Some(x), ns)]
        if v[0] == "V":
            out = []
            if v[1] != "+":
                out.append((NONE, st.fork()))
            for x in v[2]:
                ns = st.fork()
                if m.startswith("pop") and args[0][0] == "p":
                    c, pr = final_ptr(I, args[0], ns)
                    I.write_cell(c, pr, ("V", "?", v[2]), ns)
                out.append((Some(x), ns))
            return out
    return I.opaque(callee[1], callee, args, st, site)


@pat(r"(^core::slice|^alloc::vec|^std::collections|^alloc::collections|^indexmap).*::(contains|contains_key)$")
def contains(I, st, args, site, callee, fr):
    v, x = I.deref(args[0], st), I.deref(args[1], st)
    if v[0] == "L":
        items = [i[1][0] for i in v[1]] if callee[1].endswith("contains_key") and all(i[0] == "t" for i in v[1]) else list(v[1])
        if not items:
            return [(FALSE, st)]
        rs = [struct_eq(I, I.deref(i, st), x, st) for i in items]
        if TRUE in rs:
            return [(TRUE, st)]
        if all(r == FALSE for r in rs):
            return [(FALSE, st)]
        if len(items) <= 8 and all(r[0] in ("b", "y") for r in rs):
            # x == i1 || x == i2 ...
            out = []
            cur = [st]
            for r in rs:
                nxt = []
                for s in cur:
                    for b, s2 in I.split_bool(r, s):
                        (out if b else nxt).append((TRUE, s2) if b else s2)
                cur = nxt
            return out + [(FALSE, s) for s in cur]
    if v[0] in ("T",) or x[0] == "T" or has_ptr(v) or has_ptr(x):
        return I.opaque(callee[1], callee, args, st, site)
    return [(I.sym("contains", v, x), st)]


@nat("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns:
        return None
    v = I.deref(args[0], st)
    k = I.deref(args[1], st)
    if v[0] == "L" and k[0] == "i" and 0 <= k[1] < len(v[1]) and callee[1].endswith("index_mut") and args[0][0] == "p":
        cell, proj = final_ptr(I, args[0], st)
        return [(("p", cell, tuple(proj) + (("c", k[1], False),)), st)]
    if v[0] in "LV" and k[0] == "i":
        return [(I.index(v, k), st)]
    if v[0] == "s" and k[0] == "a":
        r = str_range(I, v[1], k, st)
        if r is not None:
            return [] if r is False else [(("s", r), st)]
    if v[0] in "LV" and k[0] == "a" and k[1].endswith("::RangeFull") and not callee[1].endswith("index_mut"):
        return [(v, st)]
    if v[0] == "L" and k[0] == "a" and not callee[1].endswith("index_mut") and "map" not in str(callee[5] or "") and k[1].startswith("core::ops::range::Range"):
        n = [I.deref(x, st) for x in k[3]]
        if all(x[0] == "i" for x in n[:2]):
            n = [x[1] for x in n[:2]]
            lo, hi = {"Range": lambda: (n[0], n[1]), "RangeTo": lambda: (0, n[0]), "RangeFrom": lambda: (n[0], len(v[1])), "RangeToInclusive": lambda: (0, n[0] + 1)}.get(k[1].rsplit("::", 1)[-1], lambda: (None, None))()
            if lo is not None:
                return [(("L", v[1][lo:hi]), st)] if 0 <= lo <= hi <= len(v[1]) else []
    if v[0] == "T" or k[0] == "T":
        return [(T, st)]
    return [(I.sym("idx", I._noptr(v), I._noptr(k)), st)]


@nat("core::option::Option::as_mut", "core::option::Option::as_deref_mut", "core::result::Result::as_mut")
def as_mut(I, st, args, site, callee, fr):
    if args[0][0] != "p":
        return [(args[0], st)]
    cell, proj = final_ptr(I, args[0], st)
    v = I.read_cell(cell, proj, st)
    adt = RES if "result" in callee[1] else OPT
    out = []
    for n, x, s in I.split_variant(v, adt, st):
        if n == "None":
            out.append((NONE, s))
        elif n == "Some":
            if x[0] == "y":
                # materialise so that the payload can be written
                w = Some(I.payload(x, "Some"))
                I.write_cell(cell, proj, w, s)
            elif x[0] == "T":
                I.write_cell(cell, proj, Some(T), s)
            out.append((Some(("p", cell, tuple(proj) + (("v", 1, "Some"), ("f", 0, "0")))), s))
        else:
            out.append((("a", RES, n, (I.payload(x, n),)), s))
    return out


# ------------------------------------------------------------------ memory
@nat("core::mem::replace")
def mem_replace(I, st, args, site, callee, fr):
    if args[0][0] != "p":
        return [(I.deref(args[0], st), st)]
    ns = st.fork()
    c, pr = final_ptr(I, args[0], ns)
    old = I.read_cell(c, pr, ns)
    I.write_cell(c, pr, args[1], ns)
    return [(old, ns)]


@nat("core::mem::take")
def mem_take(I, st, args, site, callee, fr):
    if args[0][0] != "p":
        return [(I.deref(args[0], st), st)]
    ns = st.fork()
    c, pr = final_ptr(I, args[0], ns)
    old = I.read_cell(c, pr, ns)
    r = default(I, ns, [], site, callee, fr)
    I.write_cell(c, pr, r[0][0] if r else T, ns)
    return [(old, ns)]


@nat("core::mem::swap")
def mem_swap(I, st, args, site, callee, fr):
    ns = st.fork()
    if args[0][0] == "p" and args[1][0] == "p":
        a, b = final_ptr(I, args[0], ns), final_ptr(I, args[1], ns)
        va, vb = I.read_cell(a[0], a[1], ns), I.read_cell(b[0], b[1], ns)
        I.write_cell(a[0], a[1], vb, ns)
        I.write_cell(b[0], b[1], va, ns)
    return [(UNIT, ns)]


@nat("core::mem::drop", "core::mem::forget")
def mem_drop(I, st, args, site, callee, fr):
    return [(UNIT, st)]


@nat("core::option::Option::insert", "core::option::Option::get_or_insert")
def opt_insert(I, st, args, site, callee, fr):
    ns = st.fork()
    if args[0][0] != "p":
        return I.opaque(callee[1], callee, args, st, site)
    c, pr = final_ptr(I, args[0], ns)
    slot = ("p", c, tuple(pr) + (("v", 1, "Some"), ("f", 0, "0")))
    if callee[1].endswith("get_or_insert"):
        v = I.read_cell(c, pr, ns)
        if v[0] == "a" and v[2] == "Some":
            return [(slot, ns)]
    I.write_cell(c, pr, Some(args[1]), ns)
    return [(slot, ns)]


@nat("core::option::Option::get_or_insert_with")
def opt_insert_with(I, st, args, site, callee, fr):
    if args[0][0] != "p":
        return I.opaque(callee[1], callee, args, st, site)
    c, pr = final_ptr(I, args[0], st)
    v = I.read_cell(c, pr, st)
    slot = ("p", c, tuple(pr) + (("v", 1, "Some"), ("f", 0, "0")))
    if v[0] != "a" or v[2] not in ("Some", "None"):
        return I.opaque(callee[1], callee, args, st, site)
    if v[2] == "Some":
        return [(slot, st)]
    out = []
    for x, s in (I.do_call(args[1], [], st, site, fr) if args[1][0] == "f" else I.call_closure(args[1], args[1], [], st, site, fr)):
        s = s.fork()
        I.write_cell(c, pr, Some(x), s)
        out.append((slot, s))
    return out


@nat("alloc::vec::Vec::insert")
def vec_insert(I, st, args, site, callee, fr):
    if args[0][0] != "p" or not I.pol.exact:
        return I.opaque(callee[1], callee, args, st, site)
    c, pr = final_ptr(I, args[0], st)
    v, i = I.read_cell(c, pr, st), I.deref(args[1], st)
    if v[0] != "L" or i[0] != "i" or not 0 <= i[1] <= len(v[1]):
        return I.opaque(callee[1], callee, args, st, site)
    ns = st.fork()
    I.write_cell(c, pr, ("L", v[1][:i[1]] + (args[2],) + v[1][i[1]:]), ns)
    return [(UNIT, ns)]


@nat("core::option::Option::take")
def opt_take(I, st, args, site, callee, fr):
    ns = st.fork()
    if args[0][0] != "p":
        return [(I.deref(args[0], st), st)]
    c, pr = final_ptr(I, args[0], ns)
    old = I.read_cell(c, pr, ns)
    I.write_cell(c, pr, NONE, ns)
    return [(old, ns)]


@nat("std::sync::poison::mutex::Mutex::lock", "std::sync::poison::rwlock::RwLock::read", "std::sync::poison::rwlock::RwLock::write")
def lock(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    return [(Ok(v), st)]


@nat("core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut", "core::cell::Cell::get")
def refcell(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    return [(I.sym("cell", v) if v[0] == "y" else v, st)]


# ------------------------------------------------------------------ async
@nat("core::future::get_context", "core::future::ResumeTy")
def get_context(I, st, args, site, callee, fr):
    return [(T, st)]


@nat("core::future::future::Future::poll")
def poll(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    if v[0] == "c" and len(v) > 3:
        r = I.run_coroutine(v, st, site, fr)
        if r is not None:
            return [(("a", POLL, "Ready", (x,)), s) for x, s in r]
    if v[0] == "y":
        return [(("a", POLL, "Ready", (I.sym("await", v),)), st)]
    if v[0] == "a":
        # wrappers such as Instrumented
        for x in v[3]:
            if x[0] == "c" and len(x) > 3:
                r = I.run_coroutine(x, st, site, fr)
                if r is not None:
                    return [(("a", POLL, "Ready", (q,)), s) for q, s in r]
    y = I.sym("await", site.fn.id, site.bb, fr.ctx)
    ns = st.fork()
    I.purge(ns, y)
    return [(("a", POLL, "Ready", (y,)), ns)]


# ------------------------------------------------------------------ comparisons
def struct_eq(I, a, b, st):
    """abstract a == b (structural)"""
    if a == b and a[0] != "T" and not has_ptr(a):
        return TRUE
    if a[0] == "T" or b[0] == "T":
        return T
    if I.pol.distinct and I.pol.distinct(I, a, b):
        return FALSE
    if a[0] == "a" and b[0] == "a":
        if a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3]):
            return FALSE
        rs = [struct_eq(I, I.deref(x, st), I.deref(y, st), st) for x, y in zip(a[3], b[3])]
        if all(r == TRUE for r in rs):
            return TRUE
        if FALSE in rs:
            return FALSE
        und = [r for r in rs if r != TRUE]
        return und[0] if len(und) == 1 else T
    if a[0] == "t" and b[0] == "t" and len(a[1]) == len(b[1]):
        rs = [struct_eq(I, I.deref(x, st), I.deref(y, st), st) for x, y in zip(a[1], b[1])]
        if all(r == TRUE for r in rs):
            return TRUE
        if FALSE in rs:
            return FALSE
        und = [r for r in rs if r != TRUE]
        return und[0] if len(und) == 1 else T
    for x, y in ((a, b), (b, a)):
        if x[0] == "a" and y[0] == "y":
            vs = I.prog.variants(x[1])
            if not x[3] and I.prog.adts.get(x[1], {}).get("k") == "enum":
                s = I.disc_set(y, x[1], st.G)
                if x[2] not in s:
                    return FALSE
                if s == {x[2]}:
                    return TRUE
                return I.sym("isvar", y, x[1], x[2], True)
            if vs and x[2] and x[2] not in I.disc_set(y, x[1], st.G):
                return FALSE
    return I.compare("Eq", a, b, st)


def _cmp(opname):
    def f(I, st, args, site, callee, fr):
        a, b = I.deref(args[0], st), I.deref(args[1], st)
        g = callee[4]
        if g:
            t, cr = I.gtype(site.fn, g[0], fr)
            s = t["s"]
            if "tracing" in s or s.startswith("log::") or "LevelFilter" in s:
                return [(FALSE, st)]
        body = None
        if callee[2] in I.prog.fns:
            body = I.prog.fns[callee[2]]
        if opname in ("Eq", "Ne"):
            r = struct_eq(I, a, b, st)
            isderived = body is not None and body.d.get("derived")
            if r[0] == "b" or (r[0] == "y" and (body is None or isderived)) or (a[0] == "y" and b[0] == "y" and not (body is not None and not isderived)):
                if opname == "Ne":
                    r = ("b", not r[1]) if r[0] == "b" else (I.sym("not", r) if r[0] == "y" else T)
                return [(r, st)]
            if body is not None:
                return None
            return [(T, st)]
        if body is not None and not body.d.get("derived"):
            return None
        partial = True
        if g:
            t, cr = I.gtype(site.fn, g[0], fr)
            while t.get("k") == "ref":
                t = I.prog.ty(cr, t["a"][0])
            if t.get("k") in ("int", "char", "bool", "str") or t.get("adt") == "alloc::string::String":
                partial = False
        return [(I.compare(opname, a, b, st, partial), st)]
    return f


for m, o in (("eq", "Eq"), ("ne", "Ne")):
    NAT["core::cmp::PartialEq::" + m] = _cmp(o)
for m, o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    NAT["core::cmp::PartialOrd::" + m] = _cmp(o)


@nat("core::cmp::Ord::cmp")
def ord_cmp(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns:
        return None
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    return [(I.cmp_value(a, b, st), st)]


@nat("core::cmp::PartialOrd::partial_cmp")
def partial_cmp(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns:
        return None
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    s = I.ord_set(a, b, st, True)
    if len(s) == 1:
        c = next(iter(s))
        return [(NONE if c == "N" else Some(("a", ORDERING, ORDNAME[c], ())), st)]
    if has_ptr(a) or has_ptr(b) or "T" in (a[0], b[0]):
        return [(T, st)]
    # split eagerly: the outcome is a finite case distinction
    out = []
    for c in sorted(s):
        ns = st.fork()
        I.set_ord(a, b, frozenset(c), ns)
        out.append((NONE if c == "N" else Some(("a", ORDERING, ORDNAME[c], ())), ns))
    return out


@nat("core::cmp::Ordering::reverse", "core::cmp::Ordering::is_lt", "core::cmp::Ordering::is_le", "core::cmp::Ordering::is_gt", "core::cmp::Ordering::is_ge",
     "core::cmp::Ordering::is_eq", "core::cmp::Ordering::is_ne")
def ordering_m(I, st, args, site, callee, fr):
    m = callee[1].rsplit("::", 1)[1]
    out = []
    for n, v, s in I.split_variant(args[0], ORDERING, st):
        if args[0][0] == "y":
            I.ordering_refine(I.deref(args[0], s), frozenset([n]), s)
        if m == "reverse":
            out.append((("a", ORDERING, {"Less": "Greater", "Greater": "Less"}.get(n, n), ()), s))
        else:
            ok = {"is_lt": ["Less"], "is_le": ["Less", "Equal"], "is_gt": ["Greater"], "is_ge": ["Greater", "Equal"], "is_eq": ["Equal"], "is_ne": ["Less", "Greater"]}[m]
            out.append((("b", n in ok), s))
    return out


@nat("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def ord_maxmin(I, st, args, site, callee, fr):
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    out = []
    c = I.compare("Lt", a, b, st)
    for v, s in I.split_bool(c, st):
        mx = callee[1].endswith("max")
        out.append(((b if v else a) if mx else (a if v else b), s))
    return out


@nat("core::intrinsics::discriminant_value")
def discriminant_value(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    if v[0] == "a":
        for x in I.prog.variants(v[1]) or []:
            if x["n"] == v[2]:
                return [(("i", x["d"]), st)]
    if v[0] == "y":
        t, cr = I.gtype(site.fn, callee[4][0], fr)
        if t.get("adt"):
            s = I.disc_set(v, t["adt"], st.G)
            if len(s) == 1:
                n = next(iter(s))
                for x in I.prog.variants(t["adt"]) or []:
                    if x["n"] == n:
                        return [(("i", x["d"]), st)]
            return [(I.sym("disc", v, t["adt"]), st)]
    return [(T, st)]


NAT["core::mem::discriminant"] = discriminant_value


# ------------------------------------------------------------------ strings and formatting
def decode_template(b):
    """rustc's byte-coded format template -> list of str pieces and ('arg', n)"""
    out, i, n, nxt = [], 0, len(b), 0
    while i < n:
        c = ord(b[i])
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(b[i:i + c])
            i += c
        elif c == 0x80:
            ln = ord(b[i]) | (ord(b[i + 1]) << 8)
            i += 2
            out.append(b[i:i + ln])
            i += ln
        else:
            # placeholder: optional flags(4) width(2) precision(2) index(2)
            idx = nxt
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            if c & 8:
                idx = ord(b[i]) | (ord(b[i + 1]) << 8)
                i += 2
            out.append(("arg", idx))
            nxt = idx + 1
    res = []
    for x in out:
        if isinstance(x, str):
            try:
                x = x.encode("latin-1").decode("utf-8")
            except Exception:
                pass
        res.append(x)
    return res


@pat(r"^core::fmt::rt::Argument::new_(display|debug|lower_hex|upper_hex|lower_exp|octal|binary|pointer|upper_exp)$")
def fmt_arg(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    kind = callee[1].rsplit("_", 1)[1]
    kind = "HEX" if callee[1].endswith("upper_hex") else kind
    t, cr = I.gtype(site.fn, callee[4][0], fr) if callee[4] else ({"s": "?"}, None)
    while t.get("k") == "ref":
        t = I.prog.ty(cr, t["a"][0])
    if kind == "display":
        r = display(I, v, t, st, site, fr)
        if r is not None:
            return [(("a", "fmtarg", kind, (x, ("s", t["s"]))), s) for x, s in r]
    return [(("a", "fmtarg", kind, (v, ("s", t["s"]))), st)]


@pat(r"^core::fmt::Arguments::(new|from_str|from_str_nonconst|new_const|new_v1)$")
def fmt_args(I, st, args, site, callee, fr):
    t = I.deref(args[0], st)
    if callee[1].endswith(("from_str", "from_str_nonconst")):
        return [(t if t[0] == "s" else t, st)]
    if t[0] == "s" and len(args) > 1:
        av = I.deref(args[1], st)
        items = av[1] if av[0] == "L" else None
        if items is not None:
            return [(concat(I, template_parts(I, t[1], items, st)), st)]
    return [(T, st)]


def template_parts(I, tmpl, items, st):
    parts = []
    for x in decode_template(tmpl):
        if isinstance(x, str):
            parts.append(("s", x))
        else:
            a = items[x[1]] if x[1] < len(items) else T
            if a[0] == "a" and a[1] == "fmtarg":
                v = I.deref(a[3][0], st)
                if a[2] == "display" and v[0] == "s":
                    parts.append(v)
                elif a[2] == "display" and v[0] == "i":
                    parts.append(("s", str(v[1])))
                elif a[2] in ("hex", "HEX", "octal", "binary") and v[0] == "i" and v[1] >= 0 and not x[2:]:
                    parts.append(("s", format(v[1], {"hex": "x", "HEX": "X", "octal": "o", "binary": "b"}[a[2]])))
                elif v[0] == "T":
                    parts.append(T)
                elif a[2] == "display" and v[0] == "y" and a[3][1][1] in ("str", "alloc::string::String"):
                    parts.append(v)
                elif a[2] == "display" and v[0] == "y" and I.tag(v)[0] in ("cat", "str"):
                    parts.append(v)
                else:
                    parts.append(I.sym("fmt", a[2], a[3][1][1], I._noptr(v)))
            else:
                parts.append(T)
    return parts


def concat(I, parts):
    flat = []
    for p in parts:
        if p[0] == "y" and I.tag(p)[0] == "cat":
            sub = I.tag(p)[1]
            ps = sub[1] if sub and sub[0] == "t" else (sub,)
        else:
            ps = (p,)
        for q in ps:
            if q[0] == "s" and flat and flat[-1][0] == "s":
                flat[-1] = ("s", flat[-1][1] + q[1])
            elif q == ("s", ""):
                continue
            else:
                flat.append(q)
    if not flat:
        return ("s", "")
    if len(flat) == 1 and flat[0][0] in ("s",):
        return flat[0]
    if len(flat) > 60:
        return T
    return I.sym("cat", ("t", tuple(flat)))


@nat("alloc::fmt::format")
def fmt_format(I, st, args, site, callee, fr):
    return [(args[0], st)]


@pat(r"(core::fmt::Formatter::write_fmt|core::fmt::Write::write_fmt|core::fmt::Formatter::write_str|core::fmt::Write::write_str|core::fmt::Formatter::pad|core::fmt::Write::write_char|alloc::string::String::push_str|alloc::string::String::push)$")
def write_buf(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns:
        return None
    isfmt = "fmt" in callee[1]
    if args[0][0] == "p":
        ns = st.fork()
        c, pr = final_ptr(I, args[0], ns)
        v = I.read_cell(c, pr, ns)
        x = I.deref(args[1], ns)
        if x[0] == "ch":
            x = ("s", x[1])
        if v[0] in ("s", "y"):
            nv = append_str(I, v, x)
            I.write_cell(c, pr, nv, ns)
            return [(Ok(UNIT) if isfmt else UNIT, ns)]
        I.write_cell(c, pr, T, ns)
        return [(Ok(UNIT) if isfmt else UNIT, ns)]
    return [(Ok(UNIT) if isfmt else UNIT, st)]


def append_str(I, v, x):
    x = I._noptr(x)
    # no unbounded growth in loops
    if v[0] == "y" and I.tag(v)[0] == "cat":
        parts = I.tag(v)[1][1]
        if len(parts) > 24 or (len(parts) >= 2 and x in parts[:-1] and x[0] == "y"):
            if I.tag(parts[-1] if parts[-1][0] == "y" else v)[0] == "many":
                return v
            return I.sym("cat", ("t", tuple(parts) + (I.sym("many", "…"),)))
        if parts[-1][0] == "y" and I.tag(parts[-1])[0] == "many":
            return v
    if v[0] == "y" and I.tag(v)[0] == "many":
        return v
    return concat(I, [v, x])


@nat("core::fmt::Display::fmt", "core::fmt::Debug::fmt")
def display_fmt(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns and getattr(I.pol, "inline_display", False):
        return None
    v = I.deref(args[0], st)
    if args[1][0] == "p":
        ns = st.fork()
        c, pr = final_ptr(I, args[1], ns)
        buf = I.read_cell(c, pr, ns)
        x = v if v[0] == "s" else (("s", str(v[1])) if v[0] == "i" else (v if v[0] == "y" else T))
        I.write_cell(c, pr, append_str(I, buf, x) if buf[0] in ("s", "y") else T, ns)
        return [(Ok(UNIT), ns)]
    return [(Ok(UNIT), st)]


@pat(r"^core::ops::bit::Not::not$|^core::ops::bit::.*::not$|^<bool as core::ops::bit::Not>::not$")
def bit_not(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns:
        return None
    return [(("b", not v), s) for v, s in I.split_bool(args[0], st)] if I.deref(args[0], st)[0] in ("b", "y") else None


@nat("core::ops::arith::Sub::sub", "core::ops::arith::Mul::mul", "core::ops::arith::Div::div", "core::ops::arith::Rem::rem")
def arith(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns:
        return None
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    if a[0] in "iy" and b[0] in "iy":
        return [(I.binop(callee[1].rsplit("::", 1)[1].capitalize(), a, b, st), st)]
    return I.opaque(callee[1], callee, args, st, site)


@pat(r"^core::num::<impl [ui](size|8|16|32|64|128)>::(saturating_sub|saturating_add|div_ceil|checked_sub|checked_add|checked_div|abs_diff|pow|is_multiple_of)$")
def int_m(I, st, args, site, callee, fr):
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    m = callee[1].rsplit("::", 1)[1]
    if a[0] != "i" or b[0] != "i" or min(a[1], b[1]) < 0 or (m in ("div_ceil",) and b[1] == 0):
        return I.opaque(callee[1], callee, args, st, site)
    x, y = a[1], b[1]
    unsigned = "impl u" in callee[1]
    if m == "saturating_sub":
        return [(("i", max(x - y, 0) if unsigned else x - y), st)]
    if m == "saturating_add":
        return [(("i", x + y), st)]
    if m == "div_ceil":
        return [(("i", -(-x // y)), st)]
    if m == "abs_diff":
        return [(("i", abs(x - y)), st)]
    if m == "pow":
        return [(("i", x ** y), st)] if y < 8 else I.opaque(callee[1], callee, args, st, site)
    if m == "is_multiple_of":
        return [(("b", x == 0 if y == 0 else x % y == 0), st)]
    r = {"checked_sub": x - y, "checked_add": x + y, "checked_div": x // y if y else None}[m]
    return [(NONE if r is None or (r < 0 and unsigned) else Some(("i", r)), st)]


@nat("core::ops::arith::Add::add")
def add(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns:
        return None
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    if callee[4]:
        t, cr = I.gtype(site.fn, callee[4][0], fr)
        if t.get("adt") == "alloc::string::String":
            return [(append_str(I, a, b), st)]
    if a[0] in "iy" and b[0] in "iy":
        return [(I.binop("Add", a, b, st), st)]
    return I.opaque(callee[1], callee, args, st, site)


STRM = {
    "to_lowercase": lambda s: s.lower(), "to_uppercase": lambda s: s.upper(), "to_ascii_lowercase": lambda s: "".join(c.lower() if c < "\x80" else c for c in s), "to_ascii_uppercase": lambda s: "".join(c.upper() if c < "\x80" else c for c in s),
    "trim": lambda s: s.strip(), "trim_start": lambda s: s.lstrip(), "trim_end": lambda s: s.rstrip(),
}


@pat(r"^(core|alloc)::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|trim|trim_start|trim_end)$")
def str_m(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    m = callee[1].rsplit("::", 1)[1]
    if v[0] == "s":
        return [(("s", STRM[m](v[1])), st)]
    if v[0] == "y":
        return [(I.sym("strfn", m, v), st)]
    return [(T, st)]


@pat(r"^core::str::<impl str>::(starts_with|ends_with|contains|eq_ignore_ascii_case|strip_prefix|strip_suffix)$|^core::str::<impl str>::(trim_prefix|trim_suffix)$")
def str_p(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    m = callee[1].rsplit("::", 1)[1]
    p = _pat(I, args[1], st, v[1], site, fr) if v[0] == "s" else None
    if p is None:
        return I.opaque(callee[1], callee, args, st, site)
    x = v[1]
    if m == "eq_ignore_ascii_case":
        return [(("b", x.lower() == p.lower()), st)]
    if m == "contains":
        return [(("b", bool(_spans(x, p)) or p == ""), st)]
    n = _at(x, p, m in ("ends_with", "strip_suffix", "trim_suffix"))
    if m in ("starts_with", "ends_with"):
        return [(("b", n is not None), st)]
    y = x if n is None else x[n:] if m.endswith("prefix") else x[:len(x) - n]
    if m.startswith("trim"):
        return [(("s", y), st)]
    return [(NONE if n is None else Some(("s", y)), st)]


@pat(r"^core::(?:char::methods::<impl char>|num::<impl u8>)::(is_ascii_digit|is_ascii_alphabetic|is_ascii_alphanumeric|is_alphabetic|is_alphanumeric|is_numeric|is_whitespace|is_ascii_whitespace|is_ascii|is_uppercase|is_lowercase|is_ascii_uppercase|"
     r"is_ascii_lowercase|is_ascii_hexdigit|is_control|is_ascii_punctuation|to_ascii_lowercase|to_ascii_uppercase|len_utf8|is_digit|to_digit)$")
def char_m(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    m = callee[1].rsplit("::", 1)[1]
    if v[0] == "i" and "impl u8" in callee[1] and m.startswith("is_ascii"):
        v = ("ch", chr(v[1]))
    if v[0] != "ch" or (len(args) > 1 and I.deref(args[1], st)[0] != "i"):
        return I.opaque(callee[1], callee, args, st, site)
    x = v[1]
    asc = x.isascii()
    if m in ("to_ascii_lowercase", "to_ascii_uppercase"):
        return [(("ch", (x.lower() if m.endswith("lowercase") else x.upper()) if asc else x), st)]
    if m == "len_utf8":
        return [(("i", len(x.encode())), st)]
    if m in ("is_digit", "to_digit"):
        b = I.deref(args[1], st)[1]
        d = "0123456789abcdefghijklmnopqrstuvwxyz".find(x.lower()) if asc and x.isalnum() else -1
        ok = 0 <= d < b
        return [((("b", ok) if m == "is_digit" else Some(("i", d)) if ok else NONE), st)]
    r = {"is_ascii_digit": asc and x.isdigit(), "is_ascii_alphabetic": asc and x.isalpha(), "is_ascii_alphanumeric": asc and x.isalnum(), "is_alphabetic": x.isalpha(), "is_alphanumeric": x.isalnum(), "is_numeric": x.isnumeric(),
         "is_whitespace": x.isspace(), "is_ascii_whitespace": x in " \t\n\r\x0c", "is_ascii": asc, "is_uppercase": x.isupper(), "is_lowercase": x.islower(), "is_ascii_uppercase": asc and x.isupper(), "is_ascii_lowercase": asc and x.islower(),
         "is_ascii_hexdigit": x in "0123456789abcdefABCDEF", "is_control": ord(x) < 32 or 127 <= ord(x) < 160, "is_ascii_punctuation": asc and x.isprintable() and not x.isalnum() and x != " "}[m]
    return [(("b", r), st)]


def _pat(I, v, st, x, site, fr):
    """a pattern of a str method that is to be matched against the constant x: a string, or the set of the characters of x that match
    (a char, an array or slice of chars, or a predicate whose answer is constant on each character)"""
    f0, v = v, I.deref(v, st)
    if v[0] == "s":
        return v[1]
    if v[0] == "ch":
        return frozenset(v[1])
    if v[0] == "L" and all(I.deref(y, st)[0] == "ch" for y in v[1]):
        return frozenset(I.deref(y, st)[1] for y in v[1])
    if v[0] in ("c", "f"):
        out = set()
        for ch in sorted(set(x)):
            r = I.call_closure(f0, v, [("ch", ch)], st, site, fr) if v[0] == "c" else I.do_call(v, [("ch", ch)], st, site, fr)
            rs = {o[0] for o in r}
            if rs == {TRUE}:
                out.add(ch)
            elif rs != {FALSE}:
                return None
        return frozenset(out)
    return None


def _at(x, p, end=False):
    """the length of the match of p at the start (end) of x"""
    if isinstance(p, str):
        return len(p) if (x.endswith(p) if end else x.startswith(p)) else None
    return 1 if x and (x[-1] if end else x[0]) in p else None


def _spans(x, p, back=False):
    """the non-overlapping matches of a non-empty pattern, in the order of the search"""
    if not isinstance(p, str):
        r = [(i, i + 1) for i, ch in enumerate(x) if ch in p]
        return r[::-1] if back else r
    r = []
    if p == "":
        return r
    i = x.rfind(p) if back else x.find(p)
    while i >= 0:
        r.append((i, i + len(p)))
        i = x.rfind(p, 0, i) if back else x.find(p, i + len(p))
    return r


@pat(r"^core::str::<impl str>::(split|rsplit|splitn|rsplitn|split_terminator|split_inclusive|split_once|rsplit_once|chars|bytes|char_indices|lines|find|rfind|matches|match_indices|trim_matches|trim_start_matches|trim_end_matches|trim_left_matches|"
     r"trim_right_matches|split_whitespace|split_ascii_whitespace|split_at|split_at_checked|is_char_boundary|get)$|^alloc::str::<impl str>::(replace|replacen|repeat)$")
def str_x(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    m = callee[1].rsplit("::", 1)[1]
    if v[0] != "s":
        return I.opaque(callee[1], callee, args, st, site)
    x = v[1]
    if m == "get":
        r = str_range(I, x, args[1], st)
        return I.opaque(callee[1], callee, args, st, site) if r is None else [(NONE if r is False else Some(("s", r)), st)]
    ps = []
    for a in args[1:]:
        a1 = I.deref(a, st)
        ps.append(a1[1] if a1[0] == "i" else _pat(I, a, st, x, site, fr) if len(ps) < (2 if m in ("splitn", "rsplitn") else 1) else a1[1] if a1[0] == "s" else None)
    if any(p is None for p in ps):
        return I.opaque(callee[1], callee, args, st, site)
    S = lambda l: ("it", ("L", tuple(("s", y) for y in l)))
    if m in ("chars", "char_indices"):
        if m == "chars":
            return [(("it", ("L", tuple(("ch", y) for y in x))), st)]
        off, r = 0, []
        for y in x:
            r.append(("t", (("i", off), ("ch", y))))
            off += len(y.encode())
        return [(("it", ("L", tuple(r))), st)]
    if m == "bytes":
        return [(("it", ("L", tuple(("i", y) for y in x.encode()))), st)]
    if m == "lines":
        return [(S([y[:-1] if y.endswith("\r") else y for y in (x[:-1] if x.endswith("\n") else x).split("\n")] if x else []), st)]
    if m in ("split_whitespace", "split_ascii_whitespace"):
        return [(S(x.split()), st)]
    if m in ("split_at", "split_at_checked", "is_char_boundary"):
        b = x.encode()
        ok = 0 <= ps[0] <= len(b) and (ps[0] == len(b) or b[ps[0]] & 0xC0 != 0x80)
        if m == "is_char_boundary":
            return [(("b", ok), st)]
        t = ("t", (("s", b[:ps[0]].decode()), ("s", b[ps[0]:].decode()))) if ok else None
        if m == "split_at_checked":
            return [(Some(t) if ok else NONE, st)]
        return [(t, st)] if ok else []
    if m == "repeat":
        return [(("s", x * ps[0]), st)]
    p = ps[1] if m in ("splitn", "rsplitn") else ps[0]
    if p == "" and m not in ("find", "rfind"):
        return I.opaque(callee[1], callee, args, st, site)
    back = m in ("rsplit", "rsplitn", "rsplit_once", "rfind")
    if p == "":
        return [(Some(("i", len(x.encode()) if back else 0)), st)]
    sp = _spans(x, p, back)
    if m in ("find", "rfind"):
        return [(Some(("i", len(x[:sp[0][0]].encode()))) if sp else NONE, st)]
    if m in ("split_once", "rsplit_once"):
        return [(Some(("t", (("s", x[:sp[0][0]]), ("s", x[sp[0][1]:])))) if sp else NONE, st)]
    if m == "matches":
        return [(S([x[a:b] for a, b in sp]), st)]
    if m == "match_indices":
        return [(("it", ("L", tuple(("t", (("i", len(x[:a].encode())), ("s", x[a:b]))) for a, b in sp))), st)]
    if "split" in m:
        if m in ("splitn", "rsplitn"):
            if ps[0] == 0:
                return [(S([]), st)]
            sp = sp[:ps[0] - 1]
        out, cut = [], len(x) if back else 0
        for a, b in sp:
            out.append(x[b:cut] if back else x[cut:b if m == "split_inclusive" else a])
            cut = a if back else b
        out.append(x[:cut] if back else x[cut:])
        if m in ("split_terminator", "split_inclusive") and out[-1] == "":
            out = out[:-1]
        return [(S(out), st)]
    if m.startswith("trim"):
        a, b = 0, len(x)
        end, start = m in ("trim_matches", "trim_end_matches", "trim_right_matches"), m in ("trim_matches", "trim_start_matches", "trim_left_matches")
        while start and a < b and _at(x[a:b], p) is not None:
            a += _at(x[a:b], p)
        while end and a < b and _at(x[a:b], p, True) is not None:
            b -= _at(x[a:b], p, True)
        return [(("s", x[a:b]), st)]
    sp = sp if m == "replace" else sp[:ps[2]]
    out, cut = "", 0
    for a, b in sp:
        out, cut = out + x[cut:a] + ps[1], b
    return [(("s", out + x[cut:]), st)]


def str_range(I, x, k, st):
    """the part of the constant x that a constant range selects: None unknown, False when it is no part"""
    k = I.deref(k, st)
    b = x.encode()
    if k[0] != "a" or not k[1].startswith("core::ops::range::") and not k[1].startswith("core::range::"):
        return None
    nm, fs = k[1].rsplit("::", 1)[1], [I.deref(y, st) for y in k[3]]
    if nm == "RangeInclusive":
        fs = fs[:2]
    if any(y[0] != "i" for y in fs):
        return None
    n = [y[1] for y in fs]
    lo, hi = {"Range": lambda: (n[0], n[1]), "RangeTo": lambda: (0, n[0]), "RangeFrom": lambda: (n[0], len(b)), "RangeFull": lambda: (0, len(b)),
              "RangeInclusive": lambda: (n[0], n[1] + 1), "RangeToInclusive": lambda: (0, n[0] + 1)}.get(nm, lambda: (None, None))()
    if lo is None:
        return None
    edge = lambda i: 0 <= i <= len(b) and (i == len(b) or b[i] & 0xC0 != 0x80)
    return b[lo:hi].decode() if lo <= hi and edge(lo) and edge(hi) else False


@nat("core::str::<impl str>::parse")
def str_parse(I, st, args, site, callee, fr):
    t, cr = I.gtype(site.fn, callee[4][0], fr)
    for fid, selft, c, ref in I.prog.impls.get("core::str::traits::FromStr::from_str", ()):
        if selft["s"] == t["s"]:
            b = I.prog.fns.get(fid)
            if b is not None:
                o = I.pol.on_call(I, site, b.id, callee, args, st)
                if o is not None:
                    return o
                if I.pol.inline(b):
                    r = I.inline(b, args, st, site, fr, (), b.crate)
                    if r is not None:
                        return r
    v = I.deref(args[0], st)
    m = re.match(r"^([iu])(\d+|size)$", t["s"])
    if v[0] == "s" and m:
        n = 64 if m.group(2) == "size" else int(m.group(2))
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if m.group(1) == "i" else (0, (1 << n) - 1)
        ok = re.match(r"^[+-]?[0-9]+$" if m.group(1) == "i" else r"^\+?[0-9]+$", v[1]) and "\n" not in v[1] and lo <= int(v[1]) <= hi
        return [(Ok(("i", int(v[1]))) if ok else Err(I.sym("parse error", t["s"], v)), st)]
    if v[0] == "s" and t["s"] in ("f32", "f64"):
        if re.match(r"^[+-]?(inf|infinity|nan|[0-9]+\.?[0-9]*(e[+-]?[0-9]+)?|\.[0-9]+(e[+-]?[0-9]+)?)$", v[1], re.I) and "\n" not in v[1]:
            return [(Ok(("fl", repr(float(v[1])))), st)]
        return [(Err(I.sym("parse error", t["s"], v)), st)]
    if v[0] == "s" and t["s"] == "bool":
        return [(Ok(("b", v[1] == "true")) if v[1] in ("true", "false") else Err(I.sym("parse error", t["s"], v)), st)]
    return [(I.sym("parse", t["s"], v) if v[0] in ("s", "y") else I.sym("r", "parse", I.ctxid(site), site.ctx), st)]


@nat("alloc::slice::<impl [T]>::join", "alloc::slice::<impl [T]>::concat", "itertools::Itertools::join")
def join_(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    if v[0] == "it":
        v = v[1]
    sep = I.deref(args[1], st) if len(args) > 1 else ("s", "")
    if I.pol.exact and v[0] == "L" and sep[0] == "s":
        ps = [I.deref(x, st) for x in v[1]]
        if all(x[0] == "s" or (x[0] == "y" and I.tag(x)[0] in ("cat", "str")) for x in ps):
            parts = []
            for i, x in enumerate(ps):
                parts += ([sep] if i else []) + [x]
            return [(concat(I, parts), st)]
    return I.opaque(callee[1], callee, args, st, site)


@pat(r"^(tracing|tracing_core|log)::")
def tracing(I, st, args, site, callee, fr):
    n = callee[1]
    if n.endswith(("is_never", "::enabled", "has_been_set", "__is_enabled")):
        return [(FALSE, st)]
    return [(I.sym("tracing", n), st)]


def sorted_by(I, m, xs, f, st, site, fr):
    """the elements in the order that the closure says, or None when what it says is not known"""
    def plainkey(k):
        return k[0] in ("i", "s", "ch", "b") or k[0] == "t" and all(plainkey(x) for x in k[1])

    def ask(args):
        r = I.do_call(I.deref(f, st), list(args), st, site, fr)
        if not r or len({v for v, _ in r}) != 1:
            raise LookupError
        return I.deref(r[0][0], r[0][1])

    def three(a, b):
        o = ask((a, b))
        if o[0] != "a" or o[2] not in ("Less", "Equal", "Greater"):
            raise LookupError
        return ("Less", "Equal", "Greater").index(o[2]) - 1
    try:
        if m.endswith("key"):
            ks = [ask((x,)) for x in xs]
            if not all(plainkey(k) for k in ks):
                return None
            return tuple(x for _, x in sorted(zip(ks, xs), key=lambda p: p[0]))
        import functools
        return tuple(sorted(xs, key=functools.cmp_to_key(three)))
    except (LookupError, TypeError):
        return None


@pat(r"^(core::slice|alloc::slice|alloc::vec).*::(sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|dedup|reverse|shrink_to_fit|reserve)$")
def sort_(I, st, args, site, callee, fr):
    m = callee[1].rsplit("::", 1)[1]
    if args[0][0] != "p" or m in ("reserve", "shrink_to_fit"):
        return [(UNIT, st)]
    ns = st.fork()
    c, pr = final_ptr(I, args[0], ns)
    v = I.read_cell(c, pr, ns)
    if v[0] != "L":
        if m == "reverse":
            I.write_cell(c, pr, T, ns)
            return [(UNIT, ns)]
        return [(UNIT, st)]
    xs = v[1]
    if m == "reverse":
        xs = xs[::-1]
    elif m == "dedup" and all(x[0] in ("i", "s", "b", "ch", "a", "t") for x in xs):
        xs = tuple(x for i, x in enumerate(xs) if i == 0 or xs[i - 1] != x)
    elif m in ("sort", "sort_unstable") and len({x[0] for x in xs}) == 1 and xs[0][0] in ("i", "s", "ch"):
        xs = tuple(sorted(xs))
    elif m.startswith("sort") and len(args) > 1 and I.pol.exact and 1 < len(xs) <= 32:
        ys = sorted_by(I, m, xs, args[1], st, site, fr)
        if ys is not None:
            xs = ys
    if xs == v[1]:
        return [(UNIT, st)]
    I.write_cell(c, pr, ("L", xs), ns)
    return [(UNIT, ns)]


@pat(r"::clear$")
def clear(I, st, args, site, callee, fr):
    if callee[2] in I.prog.fns or callee[1] in I.prog.fns or args[0][0] != "p":
        return None
    ns = st.fork()
    c, pr = final_ptr(I, args[0], ns)
    v = I.read_cell(c, pr, ns)
    I.write_cell(c, pr, ("s", "") if v[0] == "s" else ("L", ()), ns)
    return [(UNIT, ns)]


@nat("std::io::stdio::_print", "std::io::stdio::_eprint")
def print_(I, st, args, site, callee, fr):
    return [(UNIT, st)]


@nat("alloc::sync::Arc::try_unwrap", "alloc::rc::Rc::try_unwrap")
def try_unwrap(I, st, args, site, callee, fr):
    """both outcomes: whether the value is shared is a matter of the run"""
    return [(Ok(args[0]), st), (Err(args[0]), st.fork())]


@nat("alloc::sync::Arc::unwrap_or_clone", "alloc::rc::Rc::unwrap_or_clone")
def unwrap_or_clone(I, st, args, site, callee, fr):
    return [(args[0], st)]


@nat("alloc::boxed::box_assume_init_into_vec_unsafe")
def boxed_vec(I, st, args, site, callee, fr):
    """vec![..]: the elements written into the fresh box"""
    v = I.deref(args[0], st)
    for _ in range(4):
        if v[0] == "u" and len(v[2]) == 1:
            v = v[2][0][1]
        elif v[0] == "a" and len(v[3]) == 1:
            v = v[3][0]
    return [(v if v[0] in "LV" else args[0], st)]


@pat(r"^either::Either(<.*>)?::(is_left|is_right|left|right|as_ref|as_mut)$")
def either_m(I, st, args, site, callee, fr):
    v = I.deref(args[0], st)
    m = callee[1].rsplit("::", 1)[1]
    if v[0] != "a" or v[1] != "either::Either":
        return I.opaque(callee[1], callee, args, st, site)
    if m == "as_ref":
        return [(v, st)]
    if m == "as_mut":
        return I.opaque(callee[1], callee, args, st, site)
    hit = v[2].lower() == m.replace("is_", "")
    if m.startswith("is_"):
        return [(TRUE if hit else FALSE, st)]
    return [(Some(v[3][0]) if hit else NONE, st)]
