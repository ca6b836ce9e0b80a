"""The error-flow rule applied to a set of source files (see errflow.py)."""
import re
from .absint import Budget
from . import errflow

# a conversion or kind test answers a question with its Err: "this term is not an IRI" is an answer, not a failure
KIND_TEST = re.compile(
    r"(::term_as_\w+|::subject_as_\w+|::iri_as_\w+|::try_into|::try_from|::from_str|::parse|::from_utf8|::get_iri|::term_to_\w*subject\w*"
    r"|::to_str|::strip_prefix|::current_dir|::var|::var_os|::parse_turtle|::metadata|::try_with)$")
NOISE_ERR = ("nom::internal::Err", "std::env::VarError", "core::num::", "core::str::", "core::char::", "core::array::TryFromSliceError",
             "http::header::value::ToStrError", "std::sync::", "std::thread::", "tokio::task::task_local")


def is_test(f):
    return "::test" in f.id or "/test" in f.file or "/benches/" in f.file or "serde_core" in f.id or "/examples/" in f.file


def scope(prog, files, skip=None):
    out = []
    for f in prog.fns.values():
        if f.kind in ("fn", "method", "coroutine") and re.search(files, f.file) and not is_test(f):
            if skip and re.search(skip, f.file):
                continue
            out.append(f)
    return out


def short(name):
    n = name
    while "<" in n:
        m = re.sub(r"<[^<>]*>", "", n)
        if m == n:
            break
        n = m
    n = n.strip(":")
    parts = [p for p in n.split("::") if p]
    return "::".join(parts[-2:]) if len(parts) > 1 else n


def run_rule(c, rid, text, files, min_sites, what, skip=None, ignore_err=(), ignore_call=None, policy=None, exempt=(), ladder=((60, 20000), (300, 40000), (20, 40000))):
    prog = c.prog
    c.rule(rid, text)
    fns = scope(prog, files, skip)
    c.anchor(rid, "scope", fns, "any function in " + files)
    undecided, nsites, nfn = [], 0, 0
    per = {}
    exempted = set()

    def ig_err(et, site, name):
        return et["s"].startswith(NOISE_ERR) or any(x in et["s"].split("<")[0] for x in ignore_err)

    def ig_call(name, site):
        # only the innermost name counts: <T as TryInto>::try_into and Rdf::term_as_iri alike
        n = re.sub(r"::<.*?>$", "", name)
        return bool(KIND_TEST.search(n)) or bool(ignore_call and re.search(ignore_call, n))

    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        res = None
        for w, cap in ladder:
            pol = (policy or errflow.ErrPolicy)(prog, None, ig_err, ig_call)
            pol.widen_at, pol.per_fn = w, cap
            try:
                res = errflow.analyse(prog, f, pol)
                break
            except Budget:
                continue
        if res is None:
            undecided.append(f.id)
            continue
        sw, k, I = res
        nsites += k
        nfn += 1
        bad = set()
        for s in sw:
            if re.search(KIND_TEST, s.callee.split("(")[0]) or s.callee.startswith(("try_into(", "from_str(", "parse(")):
                continue
            key = f.file + ":" + short(s.callee)
            ex = [why for rx, why in exempt if re.search(rx, f.id + " " + s.callee + " " + key)]
            if ex:
                exempted.add((f.id, short(s.callee), ex[0]))
                continue
            per.setdefault(key, set()).add((s.site_fn.file, s.line, s.callee, s.err, s.kind, f.id))
            bad.add(s.callee)
        for i in range(max(0, k - len(bad))):
            c.ob(rid, "%s#%d" % (f.id, i), "%s:%d" % (f.file, f.line), True)
    for key, vs in sorted(per.items()):
        seen = {}
        for fl, line, callee, err, kind, fid in sorted(vs):
            seen.setdefault((fl, line), (callee, err, kind, fid))
        for n, ((fl, line), (callee, err, kind, fid)) in enumerate(sorted(seen.items())):
            c.ob(rid, "%s#%d" % (key, n), "%s:%d" % (fl, line), False,
                 "in %s, a failure of %s (%s) does not make the function report an error: a path on which it failed ends with %s" % (fid, callee, err, kind))
    c.scope[rid] = {"files": files, "functions": nfn, "fallible_sites": nsites, "undecided": undecided,
                    "exempt": [{"function": a, "operation": b, "reason": r} for a, b, r in sorted(exempted)]}
    if nsites < min_sites:
        c.ob(rid, "floor:" + rid, "-", False, "only %d fallible call sites of %d confirmed by hand (%s)" % (nsites, min_sites, what))
    if len(undecided) > 3:
        c.ob(rid, "undecided", "-", False, "too many functions could not be decided within the state budget: " + ", ".join(undecided[:6]))
    c.floors.append((rid, min_sites, nsites))
    return undecided
