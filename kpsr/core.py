"""Obligations, verdicts, evidence and known findings."""
import json
import os
import re
import sys
import time
import traceback

from .build import VERIF, REPO, Workspace
from .ir import AnalysisBroken

KNOWN = os.path.join(VERIF, "known_findings.txt")
PROPS = {}


def prop(pid, technique, level_note):
    def deco(f):
        PROPS[pid] = (f, technique, level_note)
        return f
    return deco


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.ws = Workspace()
        self.obs = []            # (rule, instance, ok, detail, where)
        self.assume = []
        self.functions = set()
        self.counters = {}

    # ------------------------------------------------------------- programs
    def program(self, unit, roots, keep=(), defs=(), inline=(), libkeep=(), dyn=None):
        src = unit if os.path.isabs(unit) else os.path.join(VERIF, "units", unit)
        return self.ws.program(src, list(roots), list(keep), list(defs), list(inline), list(libkeep), dyn=dyn)

    def unity(self, dirs, extra="", skip=()):
        """One translation unit with every source file of the given repository directories."""
        import glob
        from .build import REPO
        fs = [f for d in dirs for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))) if os.path.basename(f) not in skip]
        self.need(fs, "no source files in %s" % ", ".join(dirs))
        txt = extra + "".join('#include "%s"\n' % f for f in fs)
        p = os.path.join(self.ws.dir, "unity_%08x.cpp" % (hash(txt) & 0xffffffff))
        with open(p, "w") as f:
            f.write(txt)
        return p

    # ------------------------------------------------------------- verdicts
    def ob(self, rule, inst, ok, where="", detail=""):
        """One obligation.  inst names the construct, stable across line moves."""
        self.obs.append((rule, inst, bool(ok), detail, where))
        return bool(ok)

    def analysed(self, fn):
        self.functions.add(fn.dem)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def assumption(self, s):
        if s not in self.assume:
            self.assume.append(s)


def known_for(pid):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3).strip()))
    return r


def key_of(rule, inst):
    return re.sub(r"\s+", "_", "%s@%s" % (rule, inst))


def run(pid, tier):
    t0 = time.time()
    if pid not in PROPS:
        print("no such check: %s" % pid)
        return 2
    f, technique, note = PROPS[pid]
    ctx = Ctx(pid, tier)
    err = None
    try:
        f(ctx)
        if not ctx.obs:
            raise AnalysisBroken("no obligation was generated: the anchors of %s are gone" % pid)
    except AnalysisBroken as e:
        err = "analysis cannot answer: %s" % e
    except Exception:
        err = traceback.format_exc()
    finally:
        ctx.ws.close()
    bad = {}
    for o in ctx.obs:
        if not o[2]:
            bad.setdefault((o[0], o[1]), o)
    bad = list(bad.values())
    known = known_for(pid)
    viol, listed = [], []
    for o in bad:
        k = key_of(o[0], o[1])
        hit = [w for kk, w in known if kk == k]
        (listed if hit else viol).append((o, hit[0] if hit else None))
    rules = {}
    for r, i, ok, d, w in ctx.obs:
        e = rules.setdefault(r, {"obligations": 0, "discharged": 0, "sites": []})
        e["obligations"] += 1
        e["discharged"] += ok
        s = "%s: %s" % (w, i) if w else i
        if s not in e["sites"] and len(e["sites"]) < 60:
            e["sites"].append(s)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current sources: %s. Every obligation is decided on the "
                           "normalised program (clang bitcode, repository functions inlined); nothing is executed." % technique,
            "obligations": len(ctx.obs), "discharged": sum(1 for o in ctx.obs if o[2]),
            "rules": rules, "functions_analysed": sorted(ctx.functions), "counters": ctx.counters,
        },
        "assumptions": ctx.assume, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if listed:
        ev["coverage"]["known_findings"] = [key_of(o[0], o[1]) for o, _ in listed]
    if err:
        ev["coverage"]["error"] = err
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for o, w in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if viol:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as fh:
            for o, _ in viol:
                fh.write("rule:     %s\nkey:      %s\nwhere:    %s\ninstance: %s\nreason:   %s\n\n" % (o[0], key_of(o[0], o[1]), o[4], o[1], o[3]))
        for o, _ in viol[:12]:
            print("%s: [%s] %s: %s" % (o[4] or "?", o[0], o[1], o[3]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        if err:
            print("also: " + err, file=sys.stderr)
        return 1
    if err:
        print(err, file=sys.stderr)
        return 2
    print("OK property=%s obligations=%d functions=%d wall=%.1fs" % (pid, len(ctx.obs), len(ctx.functions), ev["wall_s"]))
    return 0
