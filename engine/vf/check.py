"""Common frame of the checks: obligations, known findings, evidence, verdict."""
import json, os, sys, time, traceback
from . import facts

VERIF = facts.VERIF
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))


class Check:
    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.t0 = time.time()
        self.obs = []           # (rule, key, where, ok, msg)
        self.rules = {}         # rule -> text
        self.notes = []
        self.floors = []
        self.scope = {}
        self.prog = None

    def load(self):
        self.prog = facts.load()
        return self.prog

    def rule(self, rid, text):
        self.rules[rid] = text
        return rid

    def ob(self, rid, key, where, ok, msg=""):
        """one obligation; key has no line numbers"""
        assert rid in self.rules, rid
        self.obs.append((rid, key, where, bool(ok), msg))
        return ok

    def floor(self, rid, n, what):
        """the rule must have matched at least n instances (counted by hand on the reference tree)"""
        got = sum(1 for o in self.obs if o[0] == rid)
        if got < n:
            self.obs.append((rid, "floor:" + rid, "-", False,
                             "only %d instances of rule %s (%s), %d confirmed by hand: the anchors of this rule have gone" % (got, rid, what, n)))
        self.floors.append((rid, n, got))

    def anchor(self, rid, key, cands, what):
        """fail closed when a construct the rule is anchored at cannot be found"""
        if not cands:
            self.ob(rid, "anchor:" + key, "-", False, "cannot find %s; the rule cannot be decided" % what)
            return None
        return cands

    def finish(self):
        kf = load_known(self.pid)
        viol, known = [], []
        for o in self.obs:
            if not o[3]:
                k = o[0] + "/" + o[1]
                (known if k in kf else viol).append(o)
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.title + ". Static analysis of the type-checked MIR of /repo's current tree; each obligation below is one construct "
                               "(function, call site, match arm, table row or path) decided by the named rule.",
                "bodies_loaded": len(self.prog.fns) if self.prog else 0,
                "extraction": getattr(self.prog, "info", {}),
                "rules": [{"rule": r, "text": t, "instances": sum(1 for o in self.obs if o[0] == r),
                           "holding": sum(1 for o in self.obs if o[0] == r and o[3])} for r, t in self.rules.items()],
                "obligations": len(self.obs),
                "discharged": sum(1 for o in self.obs if o[3]),
                "floors": [{"rule": r, "required": n, "found": g} for r, n, g in self.floors],
                "scope": self.scope,
                "samples": [{"rule": o[0], "instance": o[1], "where": o[2], "ok": o[3]} for o in self.obs[:: max(1, len(self.obs) // 40)]][:60],
            },
            "assumptions": self.notes,
            "known_findings": [o[0] + "/" + o[1] for o in known],
            "violations": len(viol),
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d known, %d violations (%.1fs)" % (
            self.pid, len(self.obs), ev["coverage"]["discharged"], len(known), len(viol), ev["wall_s"]))
        for r in ev["coverage"]["rules"]:
            print("  rule %-28s %d/%d" % (r["rule"], r["holding"], r["instances"]))
        for o in known:
            print("KNOWN-FINDING: property=%s %s/%s at %s: %s" % (self.pid, o[0], o[1], o[2], o[4]))
        if viol:
            rep = os.path.join(EVID, self.pid + ".violations.json")
            with open(rep, "w") as f:
                json.dump([{"rule": o[0], "text": self.rules[o[0]], "key": o[0] + "/" + o[1], "where": o[2], "message": o[4]} for o in viol], f, indent=1)
            for o in viol:
                print("  [%s] %s at %s\n      %s" % (o[0], o[1], o[2], o[4]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        return 0


def load_known(pid):
    """known findings: lines `known: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing"""
    out = set()
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid) and " key=" in l:
                k = l.split(" key=", 1)[1].split(" :: ")[0].strip()
                out.add(k)
    return out


def main(run, pid, title):
    c = Check(pid, title)
    try:
        c.load()
    except facts.ExtractError as e:
        print("ERROR: cannot extract facts: %s" % e)
        return 2
    try:
        run(c)
    except Exception:
        traceback.print_exc()
        c.rules.setdefault("engine", "the analysis of the property must terminate with a verdict")
        c.ob("engine", "engine-error", "-", False, "analysis failed: " + traceback.format_exc().strip().splitlines()[-1])
    return c.finish()
