"""Event sequences on every path of a function (on top of the symbolic walk)."""
from .core import AnalysisBroken
from .sym import (F, NULL, Client, Machine, T, base_of, bits, castv, cmpv, lin_eq, linv, mkp, nonnull, opv, ptr, simp, strip)


class End:
    """One way through the function: kind ret/throw/exc/stop, or iter for one turn of a loop."""
    __slots__ = ("kind", "x", "st", "val", "ev", "m", "header", "pre", "phis")

    def __init__(self, kind, x, st, val, ev, m, header=None):
        self.kind, self.x, self.st, self.val, self.ev, self.m, self.header = kind, x, st, val, ev, m, header
        self.pre, self.phis = (), None

    def evs(self, *kinds):
        return [e for e in self.ev if e[0] in kinds]

    @property
    def all(self):
        return self.ev

    def truth(self):
        return self.m.decide(self.st, self.val) if self.val is not None else None


class Walker(Client):
    def __init__(self, ev, stable=None, effects=None, throws=None, sticky=None):
        self.sticky = sticky
        self._ev, self.stable, self._eff, self._thr = ev, stable, effects, throws
        self.ends = []
        self.base = {}

    def init(self):
        return ()

    def step(self, x, st, vals, res):
        r = self._ev(self.m, x, st, vals, res)
        if r is False:
            return False
        if r:
            st.c = st.c + (r if isinstance(r, list) is False and isinstance(r[0], tuple) else (r,))

    def again(self, x, st, vals):
        g = getattr(self._ev, "again", None)
        return g(self.m, x, st, vals) if g else None

    def effects(self, x):
        return self._eff(x) if self._eff else None

    def throws(self, x, st):
        return self._thr(x) if self._thr else True

    def end(self, kind, x, st, val=None):
        self.ends.append(End(kind, x, st, val, st.c, self.m))

    def entry(self, header, st):
        st.facts[("loop", header)] = len(st.c)

    def back(self, header, st):
        n = st.facts.get(("loop", header), 0)
        it = st.c[n:]
        if it:
            e = End("iter", None, st.copy(), None, it, self.m, header)
            e.pre, e.phis = st.c[:n], dict(self.m.phis)
            self.ends.append(e)
            st.c = st.c[:n]
            mark = ("LOOP", header)
            if self.sticky:
                # what earlier turns have done
                old = st.c[n - 1][2] if n and st.c[n - 1][:2] == mark else frozenset()
                mark += (old | frozenset(self.sticky(self.m, e.st, it)) | frozenset(q for z in it if z[0] == "LOOP" for q in z[2]),)
            if not n or st.c[n - 1][:2] != mark[:2]:
                st.c = st.c + (mark,)
                st.facts[("loop", header)] = n + 1
            else:
                st.c = st.c[:n - 1] + (mark,)


def walk(fn, ev, stable=None, effects=None, throws=None, limit=400000, exc=True, sticky=None):
    import os
    for merge in ((False, True) if not os.environ.get("KPSR_MERGE") else (True,)):
        w = Walker(ev, stable, effects, throws, sticky)
        m = Machine(fn, w, limit=10 * limit if merge else limit, exc=exc, merge=merge)
        w.m = m
        try:
            m.run()
            break
        except AnalysisBroken as e:
            # too many ways: forget what single turns of a loop have learned
            if merge or "path limit" not in str(e):
                raise
    return w.ends, m


def clean(s):
    """member path without library internals"""
    import re
    return re.sub(r"\._M_.*$", "", re.sub(r"\._M_(base|i|b|M_\w+)\b.*$", "", s))


class Ev(tuple):
    """(tag, path of the first operand, operand values, result, instruction, path of the second operand)"""
    __slots__ = ()
    tag = property(lambda s: s[0])
    p = property(lambda s: s[1])
    v = property(lambda s: s[2])
    r = property(lambda s: s[3])
    i = property(lambda s: s[4])
    q = property(lambda s: s[5])


def gev(calls=(), fields=None, locks=True, stores=True, loads=True, ind=None, raw=False):
    """event function: calls matching (regex, tag), loads and stores of matching member paths, lock operations"""
    import re
    from .locks import lock_event
    cs = [(re.compile(a), t) for a, t in calls]
    fr = re.compile(fields) if fields else None

    def ev(m, x, st, vals, res):
        if x.op in ("call", "invoke"):
            if locks:
                e = lock_event(m, x, st, vals, res)
                if e:
                    return e
            q = x.callee or m.fn.callee_name(x)
            if q == "__cxa_throw":
                return Ev(("THROW", gname(vals[1]), (), None, x.i, None))
            for a, t in cs:
                if a.search(q or ""):
                    def pp(k):
                        if len(vals) <= k or vals[k][0] in ("c", "cmp", "op", "cast"):
                            return None
                        s = m.path(st, vals[k])[0]
                        return s if raw else clean(s)
                    return Ev((t, pp(0), tuple(simp(v) for v in vals), res, x.i, pp(1)))
            return None
        if fr is not None and x.op in ("load", "store"):
            k = 0 if x.op == "load" else 1
            if (x.op == "load" and not loads) or (x.op == "store" and not stores):
                return None
            s = clean(m.path(st, vals[k])[0])
            if fr.search(s):
                if x.op == "load":
                    return Ev(("LD", s, (), res, x.i, x.get("ord")))
                return Ev(("ST", s, (simp(vals[0]),), None, x.i, x.get("ord")))
        if fr is not None and x.op in ("atomicrmw", "cmpxchg"):
            s = clean(m.path(st, vals[0])[0])
            if fr.search(s):
                return Ev(("RMW", s, tuple(simp(v) for v in vals[1:]), res, x.i, x.get("rmw")))
        return None
    return ev


def gname(v):
    """name of the exception type of a type information object"""
    import re
    g = re.search(r"_ZTI(?:St)?(?:N?K?)?((?:\d+\w+?)+)E?'?\W*$", str(v))
    if not g:
        return str(v)
    n = g.group(1)
    r = []
    while True:
        k = re.match(r"(\d+)", n)
        if not k:
            break
        j = len(k.group(1))
        r.append(n[j:j + int(k.group(1))])
        n = n[j + int(k.group(1)):]
    return "::".join(r)


def truthy(m, st, v):
    """is a (bool or integer) value known to be non-zero?"""
    v = simp(v)
    if v[0] == "c":
        return bool(v[1])
    for k in (("cmp", "eq", opv("and", 8, v, ("c", 1)), ("c", 0)), cmpv("eq", v, ("c", 0)), ("cmp", "eq", opv("and", 64, v, ("c", 1)), ("c", 0))):
        d = m.decide(st, k)
        if d is not None:
            return not d
    for k in (castv("trunc", 1, v), ("ext", v, 0, 1), v):
        if k[0] in ("c", "cmp", "op", "cast", "ext", "ld", "call", "rmw"):
            d = m.decide(st, k)
            if d is not None:
                return d
    return None


def failed(m, st, r, zero=False):
    """did a system call with result r (-1 for failure; zero: otherwise 0) fail?  True, False or None when not decided on the path"""
    r = simp(r)
    if r[0] == "c":
        return r[1] < 0
    for k, y, n in ((cmpv("eq", r, ("c", -1)), True, False), (cmpv("slt", r, ("c", 0)), True, False), (cmpv("slt", ("c", -1), r), False, True), (cmpv("slt", ("c", 0), r), False, None),
                    (cmpv("slt", r, ("c", 1)), None, False), (cmpv("eq", r, ("c", 0)), False, True if zero else None)):
        d = m.decide(st, k)
        t = y if d is True else n if d is False else None
        if t is not None:
            return t
    return None


def errnos(m, st, evs, codes):
    """which of the codes is errno known to be on this path?"""
    for z in reversed(evs):
        if z[0] == "LD" and z.p == "__errno_location()":
            for k in codes:
                if m.decide(st, cmpv("eq", z.r, ("c", k))) is True:
                    return k
    return None


def lsub(l, repl):
    """replace atoms of a linear form by linear forms"""
    d, c = {}, l[1]
    for k, q in l[0].items():
        e, f = repl.get(k, ({k: 1}, 0))
        for a, b in e.items():
            d[a] = d.get(a, 0) + q * b
        c += q * f
    return {k: q for k, q in d.items() if q}, c


def lsum(a, b, s=1):
    d = dict(a[0])
    for k, q in b[0].items():
        d[k] = d.get(k, 0) + s * q
    return {k: q for k, q in d.items() if q}, a[1] + s * b[1]
