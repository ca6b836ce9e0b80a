"""Extraction and loading of the facts (type-checked, resolved MIR) of /repo's current working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
DRIVER_DIR = os.path.join(VERIF, "engine", "driver")
MODELS = os.path.join(VERIF, "engine", "models", "lib.rs")
SRC_EXT = (".rs", ".toml", ".lock", ".lalrpop", ".pest", ".rustemo", ".json", ".ttl", ".md", ".html", ".txt")


class ExtractError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()


def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        if root == REPO:
            dirs[:] = [d for d in dirs if d not in (".git", "target", "node_modules", "docs", "examples")]
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "benches", "target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".lalrpop", ".pest", ".rustemo")):
                out.append(os.path.join(root, f))
    return out


def nightly_sysroot():
    rc, o = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc != 0:
        raise ExtractError("no nightly toolchain: " + o)
    return o.strip()


def base_env(sysroot):
    return {
        "LD_LIBRARY_PATH": sysroot + "/lib",
        "RUSTC_WRAPPER": "",
        "RUSTFLAGS": "",
        "CARGO_PROFILE_DEV_DEBUG": "0",
        "CARGO_INCREMENTAL": "0",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "PYO3_PYTHON": "/usr/bin/python3",
    }


def ensure_driver(sysroot):
    tgt = os.path.join(CACHE, "driver")
    stamp = os.path.join(CACHE, "driver.stamp")
    h = file_hash([os.path.join(DRIVER_DIR, "src/main.rs"), os.path.join(DRIVER_DIR, "Cargo.toml")]) + sysroot
    binp = os.path.join(tgt, "release", "rudof-facts")
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(binp):
        return binp
    env = base_env(sysroot)
    env["CARGO_TARGET_DIR"] = tgt
    rc, o = sh(["cargo", "+nightly", "build", "--release", "--offline"], env=env, cwd=DRIVER_DIR)
    if rc != 0 or not os.path.exists(binp):
        raise ExtractError("driver build failed:\n" + o[-4000:])
    open(stamp, "w").write(h)
    return binp


def ensure_models(binp, sysroot):
    out = os.path.join(CACHE, "models")
    stamp = os.path.join(CACHE, "models.stamp")
    h = file_hash([MODELS, os.path.join(DRIVER_DIR, "src/main.rs")])
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(out + "/vmodels.lib.jsonl"):
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = base_env(sysroot)
    env["RUDOF_FACTS_OUT"] = out
    rc, o = sh([binp, "rustc", "--crate-name", "vmodels", "--crate-type", "lib", "--edition", "2024",
                MODELS, "--emit=metadata", "--out-dir", out, "-Awarnings", "--sysroot", sysroot], env=env)
    if rc != 0:
        raise ExtractError("models build failed:\n" + o[-4000:])
    open(stamp, "w").write(h)
    return out


def workspace_packages():
    rc, o = sh(["cargo", "+nightly", "metadata", "--no-deps", "--offline", "--locked", "--format-version", "1"], cwd=REPO)
    if rc != 0:
        raise ExtractError("cargo metadata failed: " + o[-2000:])
    js = o[o.index('{"packages"'):] if '{"packages"' in o else o
    md = json.loads(js[:js.rindex("}") + 1])
    return md["packages"]


def ensure_facts(verbose=True):
    """Return (facts_dir, models_dir, info). Re-extracts when any source differs from the cached extraction."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    sysroot = nightly_sysroot()
    binp = ensure_driver(sysroot)
    models = ensure_models(binp, sysroot)
    facts = os.path.join(CACHE, "facts")
    stamp = os.path.join(CACHE, "facts.stamp")
    srcs = repo_sources()
    drv = file_hash([os.path.join(DRIVER_DIR, "src/main.rs")])
    h = file_hash(srcs) + drv
    if os.path.exists(stamp) and open(stamp).read() == h:
        return facts, models, {"extracted": False, "sources": len(srcs), "extract_s": round(time.time() - t0, 1)}
    if os.path.exists(stamp):
        os.remove(stamp)
    tgt = os.path.join(CACHE, "target")
    pkgs = workspace_packages()
    # the wrapper must see every workspace crate: forget their fingerprints, keep the dependencies
    names = {p["name"] for p in pkgs}
    for sub, cut in ((".fingerprint", True), ("build", False)):
        fp = os.path.join(tgt, "debug", sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d in names or (cut and d.rsplit("-", 1)[0] in names):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    shutil.rmtree(facts, ignore_errors=True)
    os.makedirs(facts)
    env = base_env(sysroot)
    env.update({"RUSTC_WORKSPACE_WRAPPER": binp, "RUDOF_FACTS_OUT": facts, "CARGO_TARGET_DIR": tgt})
    rc, o = sh(["cargo", "+nightly", "check", "--workspace", "--features", "qlever", "--offline", "--locked"],
               env=env, cwd=REPO)
    if rc != 0:
        raise ExtractError("cargo check of /repo failed:\n" + o[-6000:])
    want = set()
    for p in pkgs:
        for t in p["targets"]:
            k = set(t["kind"])
            if k & {"lib", "rlib", "cdylib"}:
                want.add(t["name"].replace("-", "_") + ".lib")
            elif "bin" in k:
                want.add(t["name"].replace("-", "_") + ".bin")
    have = {f[:-6] for f in os.listdir(facts) if f.endswith(".jsonl")}
    missing = want - have
    if missing:
        raise ExtractError("no facts for targets: %s" % sorted(missing))
    if file_hash(srcs) + drv != h:
        raise ExtractError("sources changed during extraction")
    open(stamp, "w").write(h)
    return facts, models, {"extracted": True, "sources": len(srcs), "extract_s": round(time.time() - t0, 1)}


class Fn:
    __slots__ = ("prog", "crate", "d", "id", "kind", "file", "line", "name", "locals", "names", "argc", "bb", "proms",
                 "gen", "caps", "parent", "_calls", "promof")

    def __init__(self, prog, crate, d):
        self.prog = prog
        self.crate = crate
        self.d = d
        self.id = d["id"]
        self.kind = d["kind"]
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.name = d.get("name") or d["id"].rsplit("::", 1)[-1]
        self.locals = d["locals"]
        self.names = d["names"]
        self.argc = d["argc"]
        self.bb = d["bb"]
        self.proms = d.get("proms", [])
        self.gen = d.get("gen", [])
        self.caps = d.get("caps", [])
        self.parent = d.get("parent")
        self._calls = None
        self.promof = None

    def ty(self, i):
        return self.prog.ty(self.crate, i)

    def local_ty(self, i):
        return self.prog.ty(self.crate, self.locals[i])

    def ret_ty(self):
        return self.local_ty(0)

    def prom(self, i):
        f = Fn.__new__(Fn)
        p = self.proms[i]
        f.prog, f.crate, f.d = self.prog, self.crate, p
        f.id = self.id + "::promoted#%d" % i
        f.kind, f.file, f.line, f.name = "promoted", self.file, self.line, self.name
        f.locals, f.names, f.argc, f.bb = p["locals"], p.get("names", {}), p["argc"], p["bb"]
        f.proms, f.gen, f.caps, f.parent, f._calls = [], self.gen, [], self.id, None
        f.promof = self
        return f

    def calls(self):
        """[(bb index, callee const dict or None, operand, args, dest, target, line, exp)] outside cleanup blocks"""
        if self._calls is None:
            out = []
            for i, b in enumerate(self.bb):
                if b["cu"]:
                    continue
                t = b["t"]
                if t[0] == "call":
                    fn = t[1][1].get("fn") if t[1][0] == "k" else None
                    out.append((i, fn, t[1], t[2], t[3], t[4], t[5], t[6]))
            self._calls = out
        return self._calls

    def where(self, line=None):
        return "%s:%d (%s)" % (self.file, line or self.line, self.id)

    def __repr__(self):
        return "<Fn %s>" % self.id


class Program:
    def __init__(self, facts, models):
        self.fns = {}
        self.types = {}
        self.adts = {}
        self.consts = {}
        self.impls = {}      # trait method path -> [(impl fn id, self type obj, crate, traitref)]
        self.impl_list = []
        self.closures = {}   # root fn id -> [closure fn]
        self.crates = {}
        self.bodies_per_crate = {}
        for d in (facts, models):
            for f in sorted(os.listdir(d)):
                if f.endswith(".meta.json"):
                    self._meta(os.path.join(d, f))
            for f in sorted(os.listdir(d)):
                if f.endswith(".jsonl"):
                    self._bodies(os.path.join(d, f), f[:-6])
        for f in self.fns.values():
            if f.kind in ("closure", "coroutine"):
                self.closures.setdefault(f.parent, []).append(f)

    def _key(self, path):
        return os.path.basename(path).rsplit(".meta.json", 1)[0]

    def _meta(self, path):
        m = json.load(open(path))
        k = self._key(path)
        self.types[k] = m["types"]
        self.crates[k] = m
        for p, a in m["adts"].items():
            cur = self.adts.get(p)
            if cur is None or (a["local"] and not cur["local"]):
                a = dict(a)
                a["crate"] = k
                self.adts[p] = a
        for p, c in m["consts"].items():
            c = dict(c)
            c["crate"] = k
            self.consts[p] = c
        for im in m["impls"]:
            st = m["types"][im["self"]]
            im["selfty"] = st
            im["crate"] = k
            self.impl_list.append(im)
            for tm, fm in im["items"].items():
                self.impls.setdefault(tm, []).append((fm, st, k, im["ref"]))

    def _bodies(self, path, key):
        n = 0
        with open(path) as fh:
            for l in fh:
                d = json.loads(l)
                self.fns[d["id"]] = Fn(self, key, d)
                n += 1
        self.bodies_per_crate[key] = n

    def ty(self, crate, i):
        return self.types[crate][i]

    def subty(self, crate, t, n=0):
        a = t.get("a") or []
        return self.types[crate][a[n]] if n < len(a) else None

    def variants(self, path):
        a = self.adts.get(path)
        return a["v"] if a else None

    def find(self, suffix, crate=None):
        """all functions whose id ends with suffix at a path boundary"""
        out = []
        for i, f in self.fns.items():
            if i == suffix or (i.endswith(suffix) and i[-len(suffix) - 1] in ": <"):
                if crate is None or f.crate.split(".")[0] == crate:
                    out.append(f)
        return out


_prog = None


def load(verbose=True):
    global _prog
    if _prog is None:
        import gc
        gc.disable()
        facts, models, info = ensure_facts()
        _prog = Program(facts, models)
        _prog.info = info
    return _prog
