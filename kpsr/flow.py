"""Dataflow over normalised program graphs: reachability with correlated branch
conditions, locksets, linear facts, loops and folds over containers."""
from collections import deque
from math import gcd

from .ir import AnalysisBroken

# ------------------------------------------------------------------ linear forms


class Lin:
    __slots__ = ("t", "c")

    def __init__(self, t=None, c=0):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.c = c

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(t, self.c + o.c)

    def scale(self, s):
        return Lin({k: v * s for k, v in self.t.items()}, self.c * s)

    def __sub__(self, o):
        return self + o.scale(-1)

    def plus(self, c):
        return Lin(self.t, self.c + c)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((frozenset(self.t.items()), self.c))

    def const(self):
        return self.c if not self.t else None

    def atom(self):
        """The single value this is (coefficient 1, no offset)."""
        if self.c == 0 and len(self.t) == 1:
            (k, v), = self.t.items()
            if v == 1:
                return k
        return None

    def __repr__(self):
        return " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, k) for k, v in self.t.items()] + ([str(self.c)] if self.c or not self.t else []))


def atom_ids(a):
    if a[0] == "v":
        return {a[1]}
    if a[0] in ("new", "ghost"):
        return set()
    r = set()
    for x in a[1:]:
        if isinstance(x, tuple):
            r |= atom_ids(x)
    return r


def lin(fn, v, depth=24):
    """Linear form of an integer or pointer value."""
    if not isinstance(v, int):
        if "c" in v:
            return Lin({}, v["c"])
        if v.get("null"):
            return Lin({}, 0)
        if "g" in v:
            return Lin({("g", v["g"]): 1})
        if "cgep" in v:
            return lin(fn, v["cgep"]).plus(v["off"])
        return Lin({("k", str(v)): 1})
    me = Lin({("v", v): 1})
    if v < len(fn.args) or depth <= 0:
        return me
    x = fn.insts.get(v)
    if x is None:
        return me
    op = x.op
    if op == "add":
        return lin(fn, x.ops[0], depth - 1) + lin(fn, x.ops[1], depth - 1)
    if op == "sub":
        return lin(fn, x.ops[0], depth - 1) - lin(fn, x.ops[1], depth - 1)
    if op in ("zext", "sext", "ptrtoint", "inttoptr", "freeze", "bitcast"):
        return lin(fn, x.ops[0], depth - 1)
    if op == "mul":
        a, b = lin(fn, x.ops[0], depth - 1), lin(fn, x.ops[1], depth - 1)
        if a.const() is not None:
            return b.scale(a.c)
        if b.const() is not None:
            return a.scale(b.c)
    if op == "shl":
        b = lin(fn, x.ops[1], depth - 1).const()
        if b is not None and 0 <= b < 62:
            return lin(fn, x.ops[0], depth - 1).scale(1 << b)
    if op == "xor":
        b = lin(fn, x.ops[1], depth - 1).const()
        if b == -1:
            return lin(fn, x.ops[0], depth - 1).scale(-1).plus(-1)
    if op == "getelementptr" and x.get("off") is not None:
        r = lin(fn, x.ops[0], depth - 1).plus(x.get("off"))
        for iv, s in x.get("var"):
            r = r + lin(fn, iv, depth - 1).scale(s)
        return r
    if op in ("sdiv", "udiv", "ashr", "lshr"):
        # exact division of a pointer difference by the element size
        a = lin(fn, x.ops[0], depth - 1)
        b = lin(fn, x.ops[1], depth - 1).const()
        if b is not None and a.const() is None:
            return Lin({("x", op, _linkey(a), ("n", b)): 1})
    if op in ("and", "or", "srem", "urem", "trunc"):
        args = tuple(_linkey(lin(fn, o, depth - 1)) for o in x.ops)
        w = ("n", x.ty)
        return Lin({("x", op, w) + args: 1})
    return me


def _linkey(l):
    return ("lin",) + tuple(sorted(((k, ("n", v)) for k, v in l.t.items()), key=repr)) + (("n", l.c),)


# ------------------------------------------------------------------ facts
# a fact is  sum(coef*atom) + c <= 0, stored as lhs-key -> largest c


def is_unsigned_atom(fn, q):
    """Sizes and counters of containers: never negative as signed numbers."""
    v = q[1]
    if not isinstance(v, int):
        return False
    t = fn.valtype(v)
    return t is not None and fn.prog.type_name(t) in ("unsigned long", "unsigned int", "unsigned short", "unsigned char", "size_t")


def _norm(l):
    """Divide by the gcd of the coefficients (integers: c rounds up)."""
    if not l.t:
        return (), l.c
    g = 0
    for v in l.t.values():
        g = gcd(g, abs(v))
    c = l.c
    t = l.t
    if g > 1:
        t = {k: v // g for k, v in t.items()}
        c = -((-c) // g)
    return tuple(sorted(t.items(), key=repr)), c


class Facts:
    __slots__ = ("le", "ne", "bot")

    def __init__(self, le=None, ne=None, bot=False):
        self.le = dict(le or {})
        self.ne = set(ne or ())
        self.bot = bot

    def copy(self):
        return Facts(self.le, self.ne, self.bot)

    def add_le(self, l):
        """l <= 0"""
        k, c = _norm(l)
        if not k:
            if c > 0:
                self.bot = True
            return
        if k in self.le and self.le[k] >= c:
            return
        self.le[k] = c
        self._tighten(k)

    def add_eq(self, l):
        self.add_le(l)
        self.add_le(l.scale(-1))

    def add_ne(self, l):
        k, c = _norm(l)
        if not k:
            if c == 0:
                self.bot = True
            return
        self.ne.add((k, c))
        self._tighten(k)
        k2, c2 = _norm(l.scale(-1))
        self.ne.add((k2, c2))
        self._tighten(k2)

    def _tighten(self, k):
        while k in self.le and (k, self.le[k]) in self.ne:
            self.le[k] += 1

    def entails(self, l, depth=3):
        """l <= 0 ?"""
        if self.bot:
            return True
        k, c = _norm(l)
        if not k:
            return c <= 0
        if k in self.le and self.le[k] >= c:
            return True
        if depth <= 0:
            return False
        t = dict(k)
        n = len(t)
        for fk, fc in list(self.le.items()):
            # use a fact that cancels at least one atom of the goal
            hit = False
            for a, v in fk:
                if a in t and (t[a] > 0) == (v > 0):
                    hit = True
                    break
            if not hit:
                continue
            r = Lin(t, c) - Lin(dict(fk), fc)
            if len(r.t) <= n + (1 if depth > 1 else 0) - (0):
                if len(r.t) < n or len(r.t) <= n and depth > 1 or (len(r.t) == n + 1 and depth > 2):
                    if self.entails(r, depth - 1):
                        return True
        # a disequality sharpens a bound: l <= 0 and l != 0 is l <= -1
        if (k, c - 1) in self.ne and self.entails(Lin(t, c - 1), depth - 1):
            return True
        return False

    def contradictory(self):
        if self.bot:
            return True
        for k, c in self.le.items():
            if self.entails(Lin(dict(k), c).scale(-1).plus(1), 2):
                return True
        return False

    def kill(self, ids):
        if ids:
            self._kill(lambda a: bool(atom_ids(a) & ids))

    def kill_atom(self, a):
        self._kill(lambda q: q == a)

    def _kill(self, dead):
        """Forget atoms, keeping what their facts imply for the others."""
        deadatoms = {a for k in self.le for a, _ in k if dead(a)}
        for a in deadatoms:
            pos = [(k, self.le[k]) for k in self.le if dict(k).get(a, 0) == 1]
            neg = [(k, self.le[k]) for k in self.le if dict(k).get(a, 0) == -1]
            if len(pos) * len(neg) <= 64:
                for k1, c1 in pos:
                    for k2, c2 in neg:
                        s = Lin(dict(k1), c1) + Lin(dict(k2), c2)
                        if len(s.t) <= 4:
                            self.add_le(s)
            for k in list(self.le):
                if any(q == a for q, _ in k):
                    del self.le[k]
        self.ne = {(k, c) for k, c in self.ne if not any(dead(a) for a, _ in k)}

    def saturated(self):
        """Consequences about ghost values made explicit (one elimination)."""
        gh = [(k, c) for k, c in self.le.items() if any(a[0] == "ghost" for a, _ in k)]
        if not gh:
            return self
        r = self.copy()
        for _ in range(2):
            new = []
            for k1, c1 in gh:
                for a, v in k1:
                    if a[0] == "ghost":
                        continue
                    for k2, c2 in list(r.le.items()):
                        if k2 != k1 and dict(k2).get(a) == -v:
                            m = Lin(dict(k1), c1) + Lin(dict(k2), c2)
                            if len(m.t) <= 4:
                                k, c = _norm(m)
                                if k and (k not in r.le or r.le[k] < c) and len(r.le) < 400:
                                    r.add_le(m)
                                    if any(q[0] == "ghost" for q, _ in k):
                                        new.append((k, c))
            gh = new
        return r

    def assume(self, fn, v, truth, depth=6):
        """Add what branch condition v being `truth` says."""
        if not isinstance(v, int):
            if "c" in v and bool(v["c"]) != truth:
                self.bot = True
            return
        if v < len(fn.args):
            self.add_eq(Lin({("v", v): 1}, -1 if truth else 0))
            return
        x = fn.insts[v]
        if x.op == "icmp":
            a, b = lin(fn, x.ops[0]), lin(fn, x.ops[1])
            p = x.get("pred")
            if not truth:
                p = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
                     "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[p]
            d = a - b
            if p == "eq":
                self.add_eq(d)
                # x & 1 == 0 and the like stay atoms
            elif p == "ne":
                self.add_ne(d)
                # booleans
                if d.const() is None and x.get("cty") in ("i1",):
                    pass
            elif p == "slt":
                self.add_le(d.plus(1))
            elif p == "sle":
                self.add_le(d)
            elif p == "sgt":
                self.add_le(d.scale(-1).plus(1))
            elif p == "sge":
                self.add_le(d.scale(-1))
            else:
                if p in ("ugt", "uge"):
                    a, b = b, a
                    p = {"ugt": "ult", "uge": "ule"}[p]
                # a <u b: as signed numbers only when b is not negative
                if self.entails(b.scale(-1)) or all(q[0] != "v" or is_unsigned_atom(fn, q) for q in b.t):
                    self.add_le(a.scale(-1))
                    self.add_le(a - b if p == "ule" else (a - b).plus(1))
                elif self.entails(a.plus(1)):
                    # a negative is huge: so is b
                    self.add_le(b.plus(1))
                    self.add_le(a - b if p == "ule" else (a - b).plus(1))
                elif p == "ult":
                    self.add_ne(a - b)
            return
        if depth > 0:
            if x.op == "xor" and isinstance(x.ops[1], dict) and x.ops[1].get("c") in (-1, 1):
                return self.assume(fn, x.ops[0], not truth, depth - 1)
            if x.op == "and" and x.ty == "i1" and truth:
                self.assume(fn, x.ops[0], True, depth - 1)
                self.assume(fn, x.ops[1], True, depth - 1)
                return
            if x.op == "or" and x.ty == "i1" and not truth:
                self.assume(fn, x.ops[0], False, depth - 1)
                self.assume(fn, x.ops[1], False, depth - 1)
                return
            if x.op == "select" and x.ty == "i1":
                c, a, b = x.ops
                if isinstance(b, dict) and b.get("c") == 0 and truth:  # logical and
                    self.assume(fn, c, True, depth - 1)
                    self.assume(fn, a, True, depth - 1)
                    return
                if isinstance(a, dict) and a.get("c") in (1, -1) and not truth:  # logical or
                    self.assume(fn, c, False, depth - 1)
                    self.assume(fn, b, False, depth - 1)
                    return
            if x.op == "freeze":
                return self.assume(fn, x.ops[0], truth, depth - 1)
        self.add_eq(Lin({("v", v): 1}, -1 if truth else 0))


def join_facts(a, b):
    if a is None or a.bot:
        return b.copy() if b is not None else None
    if b is None or b.bot:
        return a.copy()
    r = Facts()
    a, b = a.saturated(), b.saturated()
    for k, c in a.le.items():
        if k in b.le:
            r.le[k] = min(c, b.le[k])
        elif b.entails(Lin(dict(k), c), 2):
            r.le[k] = c
    for k, c in b.le.items():
        if k not in a.le and a.entails(Lin(dict(k), c), 2):
            r.le[k] = c
    r.ne = a.ne & b.ne
    for k, c in (a.ne | b.ne) - r.ne:
        def implied(f):
            return (k, c) in f.ne or f.entails(Lin(dict(k), c + 1), 1) or f.entails(Lin(dict(k), c).scale(-1).plus(1), 1)
        if implied(a) and implied(b):
            r.ne.add((k, c))
    for k in list(r.le):
        r._tighten(k)
    return r


def edge_facts(fn, st, b, s):
    """State after taking edge b -> s (branch condition and phi assignments)."""
    st = st.copy()
    t = fn.term(b)
    hk = getattr(fn, "_hooks", None)
    if hk:
        for g in hk[2].get((b, s), ()):
            st.kill_atom(g)
        for l in hk[1].get((b, s), ()):
            st.add_le(l)
    if t.op == "br" and t.ops and len(set(t.get("succ"))) == 2:
        st.assume(fn, t.ops[0], s == t.get("succ")[0])
    elif t.op == "switch":
        vals = [c for c, d in t.get("cases") if d == s]
        l = lin(fn, t.ops[0])
        if t.get("def") != s and len(vals) == 1:
            st.add_eq(l.plus(-vals[0]))
        elif t.get("def") == s and not vals:
            for c, _ in t.get("cases"):
                st.add_ne(l.plus(-c))
    phis = [x for x in fn.blocks[s] if x.op == "phi"]
    news = []
    for p in phis:
        for v, frm in p.get("inc"):
            if frm == b and p.ty != "i1":
                news.append((p.i, lin(fn, v)))
                break
            if frm == b:
                news.append((p.i, lin(fn, v) if not isinstance(v, dict) else Lin({}, abs(v.get("c", 0)))))
                break
    # parallel assignment: introduce primed atoms, drop old, rename
    for pid, l in news:
        st.add_eq(Lin({("new", ("v", pid)): 1}) - l)
    # integer-valued consequences for the renamed variables
    kills = {p.i for p in phis} | {x.i for x in fn.blocks[s] if x.op != "phi" and x.ty}
    # derive consequences by substituting the old value in existing facts
    for pid, l in news:
        a = l.atom()
        base = None
        if len(l.t) == 1 and list(l.t.values())[0] == 1:
            base, = l.t
        if base is None:
            continue
        for k, c in list(st.le.items()):
            d = dict(k)
            if base in d and ("new", ("v", pid)) not in d:
                m = Lin(d, c)
                m2 = m - Lin({base: d[base]}) + Lin({("new", ("v", pid)): d[base]}, -l.c * d[base])
                st.add_le(m2)
        for k, c in list(st.ne):
            d = dict(k)
            if base in d and ("new", ("v", pid)) not in d:
                m = Lin(d, c)
                m2 = m - Lin({base: d[base]}) + Lin({("new", ("v", pid)): d[base]}, -l.c * d[base])
                kk, cc = _norm(m2)
                if kk:
                    st.ne.add((kk, cc))
    st.kill(kills)
    r = Facts(bot=st.bot)

    def ren(a):
        return a[1] if a[0] == "new" else a
    for k, c in st.le.items():
        r.add_le(Lin({ren(a): v for a, v in k}, c))
    for k, c in st.ne:
        r.ne.add(_norm(Lin({ren(a): v for a, v in k}, c)))
    return r


def facts(fn, init=None):
    """Block -> facts at block entry (after the phis).  Cached."""
    if init is None and hasattr(fn, "_facts"):
        return fn._facts
    st = {fn.entry: (init or Facts()).copy()}
    count = {}
    order = rpo(fn)
    rank = {b: n for n, b in enumerate(order)}
    edge = {}
    work = {fn.entry}
    while work:
        b = min(work, key=lambda z: rank.get(z, 1 << 30))
        work.discard(b)
        cur = st[b]
        if cur.bot:
            continue
        # selects are values with cases; nothing to do.  min/max intrinsics give bounds
        cur = cur.copy()
        for x in fn.blocks[b]:
            value_facts(fn, x, cur)
        for s in fn.succ[b]:
            e = edge_facts(fn, cur, b, s)
            if e.contradictory():
                e.bot = True
            edge[(b, s)] = e
            ins = [edge[(p, s)] for p in dict.fromkeys(fn.pred[s]) if (p, s) in edge]
            new = None
            for i in ins:
                if i.bot:
                    continue
                new = i.copy() if new is None else join_facts(new, i)
            if new is None:
                continue
            old = st.get(s)
            count[s] = count.get(s, 0) + 1
            if old is not None and not old.bot and count[s] > 3 + len(fn.pred[s]):
                # only keep what still holds of the previous state
                w = Facts()
                for k, c in old.le.items():
                    if new.entails(Lin(dict(k), c), 2):
                        w.le[k] = c
                w.ne = {z for z in old.ne if z in new.ne}
                new = w
            if old is None or old.le != new.le or old.ne != new.ne:
                st[s] = new
                work.add(s)
    if init is None:
        fn._facts = st
    return st


def set_hooks(fn, inst=None, edge=None, havoc=None):
    """Ghost facts: inst id -> [Lin <= 0 or ("havoc", ghost)], edge -> [Lin <= 0] assumed when the
    instruction executes or the edge is taken; havoc: edge -> ghost names that
    get a new value there (before the facts of the edge)."""
    fn._hooks = (inst or {}, edge or {}, havoc or {})
    if hasattr(fn, "_facts"):
        del fn._facts


def value_facts(fn, x, st):
    """Facts that hold of an instruction's result whatever the path."""
    hk = getattr(fn, "_hooks", None)
    if hk and x.i in hk[0]:
        for l in hk[0][x.i]:
            if isinstance(l, tuple):
                st.kill_atom(l[1])
            else:
                st.add_le(l)
    if x.is_call() and x.callee and x.callee.startswith("llvm."):
        me = Lin({("v", x.i): 1})
        if x.callee.startswith(("llvm.smin", "llvm.umin")):
            for o in x.ops[:2]:
                st.add_le(me - lin(fn, o))
        elif x.callee.startswith(("llvm.smax", "llvm.umax")):
            for o in x.ops[:2]:
                st.add_le(lin(fn, o) - me)
    elif x.op == "and" and x.ty != "i1":
        c = lin(fn, x.ops[1]).const()
        if c is not None and c >= 0:
            me = lin(fn, x.i)
            st.add_le(me.plus(-c))
            st.add_le(me.scale(-1))
    elif x.op == "select" and x.ty != "i1":
        a, b = lin(fn, x.ops[1]), lin(fn, x.ops[2])
        me = Lin({("v", x.i): 1})
        ft, ff = st.copy(), st.copy()
        ft.assume(fn, x.ops[0], True)
        ff.assume(fn, x.ops[0], False)
        for cand in (a, b):
            if ft.entails(a - cand) and ff.entails(b - cand):
                st.add_le(me - cand)
            if ft.entails(cand - a) and ff.entails(cand - b):
                st.add_le(cand - me)


def facts_at(fn, x):
    """Facts just before instruction x."""
    st = facts(fn).get(x.blk)
    if st is None:
        return Facts(bot=True)
    st = st.copy()
    for y in fn.blocks[x.blk]:
        if y.i == x.i:
            break
        value_facts(fn, y, st)
    return st


def cases(fn, v, st, blk=None, depth=3):
    """Split value v into (facts, value) cases through selects and, when v is a
    phi of block blk, through the incoming edges."""
    if isinstance(v, int) and v >= len(fn.args) and depth > 0:
        x = fn.insts[v]
        if x.op == "select":
            r = []
            for truth, o in ((True, x.ops[1]), (False, x.ops[2])):
                f = st.copy()
                f.assume(fn, x.ops[0], truth)
                if not f.contradictory():
                    r += cases(fn, o, f, blk, depth - 1)
            return r
        if x.op == "phi" and x.blk == blk:
            r = []
            for o, frm in x.get("inc"):
                pst = facts(fn).get(frm)
                if pst is None or pst.bot:
                    continue
                pst = pst.copy()
                for y in fn.blocks[frm]:
                    value_facts(fn, y, pst)
                t = fn.term(frm)
                if t.op == "br" and t.ops and len(set(t.get("succ"))) == 2:
                    pst.assume(fn, t.ops[0], blk == t.get("succ")[0])
                if pst.contradictory():
                    continue
                r += cases(fn, o, pst, frm, depth - 1)
            return r
        if x.op in ("zext", "freeze") and x.ty and depth:
            return cases(fn, x.ops[0], st, blk, depth - 1)
    return [(st, v)]


def bool_cases(fn, v, st, blk=None):
    """(facts, bool) cases of an i1 value."""
    r = []
    for f, o in cases(fn, v, st, blk):
        if isinstance(o, dict) and "c" in o:
            r.append((f, bool(o["c"])))
        else:
            for tr in (True, False):
                g = f.copy()
                g.assume(fn, o, tr)
                if not g.contradictory():
                    r.append((g, tr))
    return r


# ------------------------------------------------------------------ graph
def rpo(fn):
    if hasattr(fn, "_rpo"):
        return fn._rpo
    seen, post = set(), []
    stack = [(fn.entry, iter(fn.succ[fn.entry]))]
    seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(fn.succ[s])))
                break
        else:
            post.append(b)
            stack.pop()
    fn._rpo = post[::-1]
    return fn._rpo


def dominators(fn):
    if hasattr(fn, "_domset"):
        return fn._domset
    order = rpo(fn)
    dom = {b: None for b in order}
    dom[fn.entry] = {fn.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            s = None
            for p in fn.pred[b]:
                if dom.get(p) is not None:
                    s = set(dom[p]) if s is None else s & dom[p]
            s = (s or set()) | {b}
            if s != dom[b]:
                dom[b] = s
                ch = True
    fn._domset = dom
    return dom


def dominates(fn, a, b):
    """Instruction a dominates instruction b."""
    if a.blk == b.blk:
        return a.pos <= b.pos
    return a.blk in (dominators(fn).get(b.blk) or ())


def edge_dominates(fn, frm, to, x):
    """Every path from entry to x takes edge frm->to."""
    return not reach(fn, [("entry",)], lambda y: y.i == x.i, block_edge=lambda a, b: a == frm and b == to)


class Loop:
    def __init__(self, header, body, latches):
        self.header, self.body, self.latches = header, body, latches


def loops(fn):
    if hasattr(fn, "_loops"):
        return fn._loops
    dom = dominators(fn)
    hs = {}
    for b in rpo(fn):
        for s in fn.succ[b]:
            if s in (dom[b] or ()):
                hs.setdefault(s, []).append(b)
    r = []
    for h, ls in hs.items():
        body = {h}
        st = list(ls)
        while st:
            z = st.pop()
            if z in body:
                continue
            body.add(z)
            st += fn.pred[z]
        r.append(Loop(h, body, ls))
    fn._loops = r
    return r


def sccs(fn, keep_node=lambda b: True):
    """Cyclic strongly connected components of the block graph restricted."""
    idx, low, onst, st, out, n = {}, {}, set(), [], [], [0]
    nodes = [b for b in rpo(fn) if keep_node(b)]
    ns = set(nodes)

    def visit(v):
        call = [(v, iter([s for s in fn.succ[v] if s in ns]))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        onst.add(v)
        while call:
            u, it = call[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    onst.add(w)
                    call.append((w, iter([s for s in fn.succ[w] if s in ns])))
                    break
                elif w in onst:
                    low[u] = min(low[u], idx[w])
            else:
                call.pop()
                if call:
                    low[call[-1][0]] = min(low[call[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = set()
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.add(w)
                        if w == u:
                            break
                    if len(comp) > 1 or u in fn.succ[u]:
                        out.append(comp)
    for v in nodes:
        if v not in idx:
            visit(v)
    return out


# ------------------------------------------------------------------ exploration
def may_throw(x):
    return x.op == "call" and not x.get("nounwind") and not (x.callee or "").startswith("llvm.") and not x.get("noreturn")


NOTHROW_CALLEES = ("__cxa_allocate_exception", "__cxa_free_exception", "__cxa_begin_catch", "__cxa_end_catch",
                   "__errno_location", "operator delete", "llvm.")


def _condkeys(fn):
    """Branch conditions that control more than one branch."""
    if hasattr(fn, "_ck"):
        return fn._ck
    n = {}
    for b in fn.order:
        t = fn.term(b)
        if t.op == "br" and t.ops and isinstance(t.ops[0], int):
            k, _ = cond_norm(fn, t.ops[0])
            n[k] = n.get(k, 0) + 1
    fn._ck = {k for k, c in n.items() if c > 1}
    return fn._ck


def cond_norm(fn, v):
    """-> (key, polarity): logically identical conditions get one key."""
    x = fn.insts.get(v) if isinstance(v, int) and v >= len(fn.args) else None
    if x is not None and x.op == "xor" and isinstance(x.ops[1], dict):
        k, p = cond_norm(fn, x.ops[0])
        return k, not p
    if x is not None and x.op == "icmp":
        p = x.get("pred")
        d = lin(fn, x.ops[0]) - lin(fn, x.ops[1])
        pol = True
        if p == "ne":
            p, pol = "eq", False
        if p in ("sge", "uge"):
            p, pol = p[0] + "lt", False
        elif p in ("sgt", "ugt"):
            d = d.scale(-1)
            p = p[0] + "lt"
        elif p in ("sle", "ule"):
            d = d.scale(-1)
            p, pol = p[0] + "lt", False
        if p == "eq":
            k1, k2 = _linkey(d), _linkey(d.scale(-1))
            return ("eq", min(k1, k2, key=repr)), pol
        return (p, _linkey(d)), pol
    return ("val", ("v", v) if isinstance(v, int) else ("k", str(v))), True


RET, EXC, END = "RET", "EXC", "END"


def explore(fn, start, step, edge=None, exc=True, unwind=True, limit=200000):
    """Path exploration over (block, state).

    start: list of (block, pos, state).  step(x, state) -> state or list of
    states or None (stop).  At returns step is called with the `ret`; falling
    out through an exception calls step(x, state) with kind EXC through
    edge(None...).  Correlated branch conditions are respected.
    Returns the parent map for path reconstruction.
    """
    ck = _condkeys(fn)
    seen = {}
    work = deque()
    for b, p, s in start:
        n = (b, p, s, frozenset())
        seen[n] = None
        work.append(n)
    killmap = {}
    for k in ck:
        for i in _key_ids(k[1]):
            if i >= len(fn.args):
                killmap.setdefault(fn.insts[i].blk, []).append((k, i))
    cnt = 0
    while work:
        cnt += 1
        if cnt > limit:
            raise AnalysisBroken("state limit in %s" % fn.sq)
        n = work.popleft()
        b, p, s, known = n
        lst = fn.blocks[b]
        states = [s]
        stop = False
        cur = [(s, known)]
        for x in lst[p:]:
            if x.op == "phi":
                continue
            nxt = []
            for st, kn in cur:
                r = step(x, st)
                if r is None:
                    continue
                if not isinstance(r, list):
                    r = [r]
                nxt += [(q, kn) for q in r]
            cur = nxt
            if not cur:
                break
        if not cur:
            continue
        t = lst[-1]
        for st, kn in cur:
            succ = fn.succ[b]
            if t.op == "invoke" and not unwind:
                succ = [t.get("normal")]
            for sb in succ:
                kn2 = kn
                if t.op == "br" and t.ops and len(set(t.get("succ"))) == 2 and isinstance(t.ops[0], int):
                    k, pol = cond_norm(fn, t.ops[0])
                    truth = (sb == t.get("succ")[0]) == pol
                    if k in ck:
                        d = dict(kn)
                        if k in d and d[k] != truth:
                            continue
                        d[k] = truth
                        kn2 = frozenset(d.items())
                st2 = st
                if edge is not None:
                    st2 = edge(b, sb, st)
                    if st2 is None:
                        continue
                # entering sb redefines its values
                kl = killmap.get(sb)
                if kl:
                    dead = {k for k, _ in kl}
                    kn2 = frozenset((k, v) for k, v in kn2 if k not in dead)
                m = (sb, 0, st2, kn2)
                if m not in seen:
                    seen[m] = n
                    work.append(m)
    return seen


def _key_ids(k):
    r = set()
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == "v" and isinstance(k[1], int):
            return {k[1]}
        for x in k:
            r |= _key_ids(x)
    return r


def reach(fn, starts, target, avoid=None, block_edge=None, unwind=True, exc=False, after=True):
    """A path from any start to an instruction satisfying target that avoids
    instructions satisfying avoid.  starts: instructions (exclusive if after),
    or ("entry",) / ("edge", a, b).  Returns the found instruction list or [].
    exc: implicit exceptional exits of calls count as target("EXC")."""
    init = []
    for s in starts:
        if isinstance(s, tuple) and s[0] == "entry":
            init.append((fn.entry, 0, 0))
        elif isinstance(s, tuple) and s[0] == "edge":
            init.append((s[2], 0, 0))
        else:
            if s.op == "invoke" and after:
                init.append((s.get("normal"), 0, 0))
            else:
                init.append((s.blk, s.pos + (1 if after else 0), 0))
    hit = []

    def step(x, st):
        if hit:
            return None
        if target(x):
            hit.append(x)
            return None
        if avoid is not None and avoid(x):
            return None
        return st

    def edge(a, b, st):
        if hit:
            return None
        if block_edge is not None and block_edge(a, b):
            return None
        return st
    explore(fn, init, step, edge, unwind=unwind)
    return hit


def exits(fn, unwind=False):
    r = [x for x in fn.all() if x.op == "ret"]
    if unwind:
        r += [x for x in fn.all() if x.op == "resume"]
    return r


def is_exit(x):
    return x.op == "ret"


def is_throw(x):
    return x.is_call() and x.callee in ("__cxa_throw", "__cxa_rethrow")


def thrown_type(x):
    o = x.ops[1]
    return o.get("g", "") if isinstance(o, dict) else ""


# ------------------------------------------------------------------ locks
LOCKS = ("lock", "lock_shared")


def lock_op(fn, x):
    """-> ("lock"|"unlock", mutex key) or None"""
    if not x.is_call() or not x.callee:
        return None
    parts = x.callee.split("::")
    if len(parts) >= 2 and parts[-2].endswith("mutex"):
        m = parts[-1]
        if m in LOCKS:
            return ("lock", mutex_key(fn, x.ops[0]))
        if m in ("unlock", "unlock_shared"):
            return ("unlock", mutex_key(fn, x.ops[0]))
    return None


def mutex_key(fn, v):
    k = fn.addr(v).key()
    i = k.find("._M_mutex")
    return k[:i] if i >= 0 else k


def locksets(fn, entry=frozenset()):
    """Instruction id -> set of mutexes held on every path before it."""
    ins = {fn.entry: frozenset(entry)}
    work = [fn.entry]
    at = {}
    while work:
        b = work.pop()
        cur = ins[b]
        for x in fn.blocks[b]:
            at[x.i] = cur
            l = lock_op(fn, x)
            if l:
                cur = cur | {l[1]} if l[0] == "lock" else cur - {l[1]}
        for s in fn.succ[b]:
            o = ins.get(s)
            n = cur if o is None else o & cur
            if n != o:
                ins[s] = n
                work.append(s)
    return at


def may_locksets(fn, entry=frozenset()):
    ins = {fn.entry: frozenset(entry)}
    work = [fn.entry]
    at = {}
    while work:
        b = work.pop()
        cur = ins[b]
        for x in fn.blocks[b]:
            at[x.i] = cur
            l = lock_op(fn, x)
            if l:
                cur = cur | {l[1]} if l[0] == "lock" else cur - {l[1]}
        for s in fn.succ[b]:
            o = ins.get(s)
            n = cur if o is None else o | cur
            if n != o:
                ins[s] = n
                work.append(s)
    return at


# ------------------------------------------------------------------ containers
def vector_field(fn, v):
    """If v is a load of <vec>._M_impl._M_start/_M_finish -> (vec key, which)."""
    if not isinstance(v, int) or v < len(fn.args):
        return None
    x = fn.insts.get(v)
    if x is None or x.op != "load":
        return None
    k = fn.addr(x.ops[0]).key()
    for w in ("_M_start", "_M_finish"):
        s = "._M_impl." + w
        if k.endswith(s):
            return k[:-len(s)], w
    return None


def vec_atoms(fn, l):
    """Replace vector begin/end loads in a linear form by symbolic atoms."""
    t = {}
    for a, c in l.t.items():
        if a[0] == "v":
            vf = vector_field(fn, a[1])
            if vf:
                a = (vf[1], vf[0])
        t[a] = t.get(a, 0) + c
    return Lin(t, l.c)


def elem_loop(fn, lp, esize=8):
    """Does the loop visit every element of a vector exactly once, in order?
    -> (vector key, function testing whether an address is the current element,
        body entry edge) or None.  Recognises pointer and index iteration."""
    h = lp.header
    outs = [(b, s) for b in lp.body for s in fn.succ[b] if s not in lp.body]
    for p in [x for x in fn.blocks[h] if x.op == "phi"]:
        init, steps = None, []
        ok = True
        for v, frm in p.get("inc"):
            l = lin(fn, v)
            if frm in lp.body:
                d = l - Lin({("v", p.i): 1})
                if d.const() is None:
                    ok = False
                else:
                    steps.append(d.c)
            else:
                if init is not None and init != l:
                    ok = False
                init = l
        if not ok or init is None or not steps or len(set(steps)) != 1:
            continue
        init = vec_atoms(fn, init)
        step = steps[0]
        me = Lin({("v", p.i): 1})
        for b, s in outs:
            t = fn.term(b)
            if t.op != "br" or not t.ops:
                continue
            c = fn.insts.get(t.ops[0]) if isinstance(t.ops[0], int) else None
            if c is None or c.op != "icmp":
                continue
            d = vec_atoms(fn, lin(fn, c.ops[0]) - lin(fn, c.ops[1]))
            exit_when = s == t.get("succ")[0]
            pred = c.get("pred")
            # pointer iteration
            if step == esize and len(init.t) == 1 and list(init.t)[0][0] == "_M_start" and init.c == 0:
                vec = list(init.t)[0][1]
                fin = Lin({("_M_finish", vec): 1})
                rel = d == me - fin or d == fin - me
                if rel and ((pred == "eq" and exit_when) or (pred == "ne" and not exit_when)):
                    if b == h or all(b in (dominators(fn)[x] or ()) for x in lp.latches):
                        return vec, Lin({("v", p.i): 1}), (b, s)
            # index iteration
            if step == 1 and init == Lin({}, 0):
                # i < (finish-start)/esize
                for sgn in (1, -1):
                    e = d.scale(sgn)
                    if e.t.get(("v", p.i)) == 1:
                        rest = (e - me).scale(-1)
                        vec = _vec_size(rest, esize)
                        if vec is None:
                            continue
                        pp = pred if sgn == 1 else {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "eq": "eq", "ne": "ne", "uge": "ule", "ule": "uge", "sge": "sle", "sle": "sge"}[pred]
                        stay = (pp in ("ult", "slt", "ne") and not exit_when) or (pp in ("uge", "sge", "eq") and exit_when)
                        if stay:
                            return vec, ("idx", p.i), (b, s)
    return None


def _vec_size(l, esize):
    a = l.atom()
    if a is None or a[0] != "x" or a[1] not in ("sdiv", "ashr", "lshr", "udiv"):
        return None
    inner, n = a[2], a[3]
    div = n[1] if a[1] in ("sdiv", "udiv") else 1 << n[1]
    if div != esize:
        return None
    names = {}
    for it in inner[1:-1]:
        k, c = it
        names[k] = c[1]
    return names if False else _two(names)


def _two(names):
    if len(names) != 2:
        return None
    s = [k for k, c in names.items() if c == -1 and k[0] == "_M_start"]
    f = [k for k, c in names.items() if c == 1 and k[0] == "_M_finish"]
    if s and f and s[0][1] == f[0][1]:
        return s[0][1]
    return None
