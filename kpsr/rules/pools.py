"""Lock-free stack and object pool."""
import re

from ..core import prop
from ..flow import (Lin, cases, dominators, facts_at, lin, loops)
from ..ir import AnalysisBroken
from ..rec import V, elem_loops, throws_only
from ..sem import F, NULL, T, castv, cmpv, lin_eq, mkp, ptr, simp, walk, base_of
from .sequencer import counted_loop

UNDEF = 65535
STK = "kpsr::LockFreeStack"


# ------------------------------------------------------------------ P01
def is_undef(m, st, v):
    """True: known empty marker, False: known not, None: unknown"""
    for k in (cmpv("eq", v, ("c", -1)), cmpv("eq", v, ("c", UNDEF)), cmpv("eq", castv("zext", 32, v), ("c", UNDEF)), cmpv("eq", castv("zext", 64, v), ("c", UNDEF)),
              cmpv("eq", castv("sext", 32, v), ("c", -1))):
        d = m.decide(st, k)
        if d is not None:
            return d
    return None


def undef_const(v):
    return v[0] == "c" and v[1] & 0xffff == UNDEF


def stack_fn(c, f):
    """events of push or pop"""
    stable = lambda s: s in ("this.node_buffer", "this.data_buffer._M_impl._M_start", "this.node_buffer_ptr._M_t._M_t._M_head_impl")
    expected = {}
    hit = []

    def listname(m, st, p):
        s, _ = m.path(st, p)
        g = re.match(r"this\.(head|free_nodes)\b", s)
        return g.group(1) if g else None

    def node_slot(m, st, p):
        """pointer to node_buffer[i] -> i"""
        b, o, va = ptr(p)
        if b[0] == "ld" and m.path(st, mkp(b[1], b[2], b[3]))[0] in ("this.node_buffer", "this.node_buffer_ptr._M_t._M_t._M_head_impl"):
            if len(va) == 1 and va[0][1] == 2 and o == 0:
                return va[0][0]
            if not va and o % 2 == 0:
                return ("c", o // 2)
        return None

    def data_slot(m, st, p):
        b, o, va = ptr(p)
        if b[0] == "ld" and m.path(st, mkp(b[1], b[2], b[3]))[0].startswith("this.data_buffer"):
            if len(va) == 1 and va[0][1] == 8 and o == 0:
                return va[0][0]
            return ("?", p)
        return None

    def ev(m, x, st, vals, res):
        if x.callee == "__atomic_compare_exchange" or x.op == "cmpxchg":
            if x.op == "cmpxchg":
                raise AnalysisBroken("unexpected form of compare-and-exchange in %s" % f.sq)
            L = listname(m, st, vals[1])
            hit.append(x.i)
            if L is None or vals[0] != ("c", 4):
                return ("BAD", x.i, "compare-and-exchange on something else than a list head")
            b = base_of(vals[2])
            if b[0] == "al":
                expected.setdefault(L, set()).add(b[1])
            if res == F:
                return
            ea, ei = simp(m.read(st, vals[2], 2)), simp(m.read(st, mkp(vals[2], 2), 2))
            da, di = simp(m.read(st, vals[3], 2)), simp(m.read(st, mkp(vals[3], 2), 2))
            from ..sem import linv
            d0, c0 = linv(da)
            d1, c1 = linv(ea)
            delta = (c0 - c1) if d0 == d1 else None
            order = vals[4][1] if vals[4][0] == "c" else -1
            for i in [e[2] for e in st.c if e[0] == "TAKE"]:
                if di == i or simp(di) == simp(i):
                    nx = m.read(st, mkp(nodebase(m, st, i), 0, ((i, 2),)), 2)
                    return ("GIVE", L, i, simp(nx) == ei, delta, order, x.i)
            # take: desired is the successor of the expected node
            s = di
            ok = s[0] == "ld" and node_slot(m, st, mkp(s[1], s[2], s[3])) is not None and simp(node_slot(m, st, mkp(s[1], s[2], s[3]))) == ei
            return ("TAKE", L, ei, ok, delta, order, x.i, is_undef(m, st, ei) is False)
        for k, v in enumerate(vals):
            i = data_slot(m, st, v) if v[0] == "p" else None
            if i is None:
                continue
            if x.op == "store" and k == 1:
                return ("W", i, vals[0], x.i)
            if x.op == "load":
                return ("R", i, res, x.i)
            return ("BAD", x.i, "the slot is handed to %s" % (x.callee or x.op))
        if x.op == "store":
            i = node_slot(m, st, vals[1])
            if i is not None:
                return ("LINK", i, x.i)
            L = listname(m, st, vals[1])
            if L:
                return ("BAD", x.i, "a list head is overwritten without compare-and-exchange")

    def nodebase(m, st, i):
        for b, va, _ in st.mem:
            if va and len(va) == 1 and va[0] == (i, 2):
                return b
        from ..sem import mkp as _m
        p = None
        for (b, va, o) in list(st.mem):
            if b[0] == "ld" and m.path(st, mkp(b[1], b[2], b[3]))[0] in ("this.node_buffer",):
                p = b
        return p or ("arg", "this")
    ends, m = walk(f, ev, stable=stable)
    return ends, m, expected, hit


def empty_seen(m, st, L, expected):
    """the path knows that some value read from list L is the empty marker"""
    def from_list(v, d=8):
        if d == 0 or not isinstance(v, tuple):
            return False
        if v and v[0] == "ld":
            s, _ = m.path(st, mkp(v[1], v[2], v[3]))
            if s.startswith("this.%s." % L) or s == "this.%s" % L:
                return True
            if v[1][0] == "al" and v[1][1] in expected.get(L, ()):
                return True
        return any(from_list(q, d - 1) for q in v if isinstance(q, tuple))
    for k, t in st.facts.items():
        if k[0] == "is" and undef_const(t) and from_list(k[1]):
            return True
    return False


@prop("P01", "path-sensitive typestate of slot ownership (symbolic store, every path of push and pop, compare-and-exchange split into both outcomes)",
      "Decides every path of push and pop for all values; the interleaving argument is by ownership (a slot is touched only between its take and its give). The 16-bit version tag is taken as never wrapping within one operation.")
def p01(c):
    c.assumption("the 16 bit version tag of a list head does not wrap around while one thread is between its read and its compare-and-exchange")
    c.assumption("node_buffer and data_buffer are not reassigned after construction (only the constructor writes them)")
    p = c.program("stack.cpp", ["%s<long>::(push|pop)" % STK])
    tags = {}
    roles = {}
    for nm in ("push", "pop"):
        for f in p.find(STK + "::" + nm):
            c.analysed(f)
            ends, m, expected, hit = stack_fn(c, f)
            c.need(hit, "no compare-and-exchange in %s" % f.sq)
            won = 0
            for e in ends:
                w = f.where(e.x) if e.x is not None else f.here()
                for b in e.evs("BAD"):
                    c.ob("slot-ownership", nm, False, f.where(f.insts[b[1]]), b[2])
                if e.kind == "iter":
                    if e.ev and not e.evs("LINK"):
                        c.ob("slot-ownership", nm, False, f.here(), "an operation takes or gives slots in a loop")
                    elif [q for q in e.ev if q[0] != "LINK"]:
                        c.ob("slot-ownership", nm, False, f.here(), "an operation takes or gives slots in a loop")
                    continue
                if e.kind == "stop":
                    continue
                c.count("paths")
                tk, gv, wr, rd, lk = e.evs("TAKE"), e.evs("GIVE"), e.evs("W"), e.evs("R"), e.evs("LINK")
                for t in tk + gv:
                    tags.setdefault((t[1], t[0]), set()).add(t[4])
                    if t[0] == "TAKE":
                        c.ob("take-installs-successor", nm, t[3], f.where(f.insts[t[6]]), "the list head is not replaced by the successor of the node compared with")
                        c.ob("take-from-nonempty", nm, t[7], f.where(f.insts[t[6]]), "a node is taken although the list may be empty")
                        c.ob("take-acquires", nm, t[5] in (2, 4, 5), f.where(f.insts[t[6]]), "taking a slot does not acquire the other thread's writes")
                    else:
                        c.ob("give-links-head", nm, t[3], f.where(f.insts[t[6]]), "the returned node is not linked to the head it replaces")
                        c.ob("give-releases", nm, t[5] in (3, 4, 5), f.where(f.insts[t[6]]), "giving a slot away does not release this thread's writes")
                ret = e.truth() if e.kind == "ret" else None
                if not tk:
                    c.ob("empty-handed", nm, e.kind != "ret" or ret is False, w, "success is reported without a slot")
                    c.ob("no-effect-on-failure", nm, not (gv or wr or rd), w, "a slot is touched or given without having been taken")
                    if e.kind == "ret":
                        L = {"push": "free_nodes", "pop": "head"}[nm]
                        c.ob("failure-only-when-empty", nm, empty_seen(m, e.st, L, expected), w, "failure is reported although the list was not seen empty")
                    continue
                won += 1
                seq = [q for q in e.ev if q[0] in ("TAKE", "GIVE", "W", "R", "LINK")]
                ok1 = len(tk) == 1 and len(gv) == 1
                c.ob("take-then-give-once", nm, ok1, w, "a path takes %d and gives %d slots" % (len(tk), len(gv)))
                if not ok1:
                    continue
                roles.setdefault(nm, set()).add((tk[0][1], gv[0][1]))
                i = tk[0][2]
                pos = {id(q): k for k, q in enumerate(seq)}
                a, b = seq.index(tk[0]), seq.index(gv[0])
                for q in wr + rd:
                    k = seq.index(q)
                    c.ob("slot-access-while-owned", nm, a < k < b and simp(q[1]) == simp(i), f.where(f.insts[q[3]]), "the value of a slot is accessed while the slot is not owned")
                for q in lk:
                    k = seq.index(q)
                    c.ob("link-while-owned", nm, a < k < b and simp(q[1]) == simp(i), f.where(f.insts[q[2]]), "the link of a node is written while the node is not owned")
                c.ob("success-reported", nm, e.kind == "ret" and ret is True, w, "a completed operation does not return true")
                if nm == "push":
                    arg = m.read(e.st, ("arg", 1), 8, record=False)
                    c.ob("value-stored", nm, len(wr) == 1 and value_is_arg(m, e.st, wr[0][2]), w, "the pushed value is not stored in the slot exactly once")
                else:
                    out = simp(m.read(e.st, ("arg", 1), 8, record=False))
                    c.ob("value-delivered", nm, bool(rd) and any(simp(q[2]) == out for q in rd), w, "the popped value does not come from the slot")
            c.ob("can-succeed", nm, won > 0, f.here(), "no path completes the operation")
    c.ob("lists-kept-apart", "push/pop", roles.get("push") == {("free_nodes", "head")} and roles.get("pop") == {("head", "free_nodes")}, "", "slots do not move from free to filled on push and from filled to free on pop")
    # a refused operation leaves the caller's object alone (element type with a visible move)
    q = c.program("stack.cpp", ["%s<std::unique_ptr<KObj.*>::(push|pop)" % STK])
    for nm in ("push", "pop"):
        fs = q.find(STK + "::" + nm)
        c.need(fs, "no %s for a movable element" % nm)
        for f in fs:
            c.analysed(f)

            def ev(m, x, st, vals, res):
                if x.callee == "__atomic_compare_exchange":
                    return ("CAS",) if res != F else None
                if x.op == "store" and base_of(vals[1]) == ("arg", 1) or x.op == "call" and any(isinstance(v, tuple) and base_of(v) == ("arg", 1) for v in vals):
                    return ("TOUCH", x.i)
            ends, m = walk(f, ev)
            for e in ends:
                for t in e.evs("TOUCH"):
                    k = [q[0] for q in e.ev[:e.ev.index(t)]]
                    c.ob("argument-untouched-without-slot", nm, "CAS" in k, f.where(f.insts[t[1]]), "the caller's object is changed before a slot was taken")
    for L in ("head", "free_nodes"):
        t, g = tags.get((L, "TAKE"), set()), tags.get((L, "GIVE"), set())
        al = t | g
        ok = None not in al and (all(d >= 0 for d in al) or all(d <= 0 for d in al)) and (t and 0 not in t or g and 0 not in g)
        c.ob("version-tag-advances", L, ok, "", "a node can leave and return while the tag of the list head stays the same")


def value_is_arg(m, st, v):
    v = simp(v)
    return v[0] == "ld" and v[1] == ("arg", 1) and v[2] == 0 and not v[3]


# ------------------------------------------------------------------ P02
def resolve(fn, v):
    while isinstance(v, int) and v >= len(fn.args) and fn.insts[v].op in ("trunc", "zext", "sext"):
        v = fn.insts[v].ops[0]
    return v


def call_guard(fn, x):
    return x.op in ("call", "invoke") and "operator bool" in (x.callee or "")


def always(fn, sites, start, goals, null_calls=True, inside=None):
    """every way from start to a goal block passes one of the sites' blocks, except where a std::function is empty"""
    blks = {x.blk for x in sites}
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in blks:
            continue
        seen.add(b)
        t = fn.term(b)
        for s in fn.succ[b]:
            if inside is not None and s not in inside:
                continue
            if s == start and inside is not None:
                return False
            if null_calls and t.op == "br" and t.ops and isinstance(t.ops[0], int) and t.ops[0] in fn.insts and len(set(t.get("succ"))) == 2:
                from ..rec import bool_root
                v, pol = bool_root(fn, t.ops[0])
                y = fn.insts.get(v) if isinstance(v, int) else None
                if y is not None and call_guard(fn, y) and (s == t.get("succ")[0]) != pol:
                    continue
            if s in blks:
                continue
            if s in goals:
                return False
            st.append(s)
    return True


def coverage(fn, sites, addr_index, count, null_calls):
    """sites: instructions; addr_index(x) -> Lin index.  -> None when every index 0..count-1 is hit exactly once, else reason"""
    ivs = []
    groups = {}
    for x in sites:
        li = innermost(fn, x)
        idx = addr_index(x)
        if idx is None:
            return "the index of an access is not understood"
        groups.setdefault((li.header if li else None, repr(idx)), []).append((x, idx, li))
    exits = [b for b in fn.order if fn.term(b).op == "ret"]
    for (h, _), g in groups.items():
        xs = [q[0] for q in g]
        idx, li = g[0][1], g[0][2]
        if li is None:
            if not always(fn, xs, fn.entry, exits, null_calls):
                return "an element is not always reached"
            ivs.append((idx, idx.plus(1)))
            continue
        cl = counted_loop(fn, li)
        if cl is None:
            return "a loop over the elements is not a plain counting loop"
        ph, init, step, end = cl
        if abs(step) != 1 or idx.t.get(("v", ph.i)) != 1:
            return "a loop does not visit successive elements"
        off = idx - V(ph.i)
        lo, hi = (init, end) if step == 1 else (end.plus(1), init.plus(1))
        if not always(fn, xs, li.header, set(), null_calls, inside=li.body):
            return "an element of the loop is not always reached"
        ivs.append((lo + off, hi + off))
    cur, left = Lin(), list(ivs)
    while left:
        nx = [iv for iv in left if iv[0] == cur]
        if not nx:
            return "the elements touched do not start at element %s" % cur
        cur = nx[0][1]
        left.remove(nx[0])
    return None if cur == count else "the elements touched end at %s" % (cur,)


def innermost(fn, x):
    best = None
    for l in loops(fn):
        if x.blk in l.body and (best is None or len(l.body) < len(best.body)):
            best = l
    return best


@prop("P02", "interval coverage of the constructor's writes and initialiser calls, with facts from the capacity guard",
      "Proves for every capacity that all slots are linked and initialised; allocation of the storage by the standard library is trusted.")
def p02(c):
    p = c.program("stack.cpp", ["%s<long>::LockFreeStack" % STK])
    for f in p.find(STK + "::LockFreeStack"):
        c.analysed(f)
        cap = V(1)
        N = "LockFreeStack(capacity)"
        allocs = list(f.calls(r"operator new(\[\])?$"))
        rs = list(f.calls(r"std::vector::(resize|assign|vector|_M_fill_assign|_M_default_append)$"))
        for x in allocs + rs:
            if len(x.ops) < 2 and x in rs:
                continue
            st = facts_at(f, x)
            c.ob("capacity-guard", N, st.entails(cap.plus(-UNDEF)) and st.entails(cap.scale(-1).plus(1)), f.where(x), "storage is allocated for a capacity that is zero or does not fit the 16 bit index")
        c.ob("node-storage", N, any(lin(f, x.ops[0]) == cap.scale(2) for x in allocs), f.here(), "the node storage does not have one node per slot")
        c.ob("data-storage", N, any(len(x.ops) > 1 and lin(f, x.ops[1]) == cap for x in rs), f.here(), "the slot storage does not have capacity elements")

        def node_index(x):
            a = f.addr(x.ops[1])
            if a.root[0] != "load" or a.fields()[-1:] != ["index_next"] and "node_buffer" not in a.key():
                return None
            if not a.var:
                return Lin({}, a.off // 2)
            if len(a.var) == 1 and a.var[0][1] in (2, -2):
                return (lin(f, a.var[0][0]).scale(a.var[0][1] // 2)).plus(a.off // 2)
            return None

        links = [x for x in f.all() if x.op == "store" and "node_buffer" in f.addr(x.ops[1]).key() and f.addr(x.ops[1]).root[0] == "load"]
        why = coverage(f, links, node_index, cap, False)
        c.ob("every-node-linked", N, why is None, f.here(), why or "")
        for x in links:
            i = node_index(x)
            if i is None:
                continue
            st = facts_at(f, x)
            bad = None
            for g, v in cases(f, resolve(f, x.ops[0]), st, x.blk):
                v = resolve(f, v)
                if isinstance(v, dict) and "c" in v and v["c"] & 0xffff == UNDEF:
                    if not g.entails(cap - i.plus(1)):
                        bad = "the end marker is stored for a node that may not be the last"
                elif lin(f, v) == i.plus(1):
                    if not g.entails(i.plus(2) - cap):
                        bad = "a node may be linked behind the last slot"
                else:
                    bad = "a node is not linked to its successor"
            c.ob("link-value", N, bad is None, f.where(x), bad or "")
        # initialiser
        calls = list(f.calls(r"std::function::operator\(\)$"))

        def data_index(x):
            a = f.addr(x.ops[1])
            if a.root[0] != "load" or "data_buffer" not in a.key():
                return None
            if not a.var:
                return Lin({}, a.off // 8)
            if len(a.var) == 1 and a.var[0][1] in (8, -8):
                return lin(f, a.var[0][0]).scale(a.var[0][1] // 8).plus(a.off // 8)
            return None
        els = [e for e in elem_loops(f) if "data_buffer" in str(e.vec)]
        full = [e for e in els if any(x.blk in e.lp.body and e.is_slot(x.ops[1]) for x in calls)]
        if len(full) == 1 and len(calls) == 1:
            why = None if always(f, calls, full[0].lp.header, set(), True, inside=full[0].lp.body) else "an element is not always initialised"
        else:
            why = coverage(f, calls, data_index, cap, True)
        c.ob("every-slot-initialised", N, why is None, f.here(), why or "")
        # list heads: the last write to each wins
        ends, m = walk(f, lambda m, x, st, v, r: head_store(m, x, st, v))
        got = 0
        for e in ends:
            if e.kind != "ret":
                continue
            got += 1
            last = {}
            for q in e.evs("HEAD"):
                last[q[1]] = q[2]
            c.ob("filled-list-starts-at-0", N, last.get("head") == 0, f.where(e.x), "the list of filled slots does not start at slot 0")
            c.ob("free-list-empty", N, last.get("free_nodes") == UNDEF, f.where(e.x), "the list of free slots is not empty at the start")
        c.need(got, "constructor has no normal exit")


def head_store(m, x, st, vals):
    if x.op != "store" and x.callee != "__atomic_store":
        return
    tgt = vals[1]
    s, _ = m.path(st, tgt)
    g = re.match(r"this\.(head|free_nodes)\b(.*)", s)
    if not g:
        return
    if x.op == "store":
        from ..sym import tw
        v, w = vals[0], tw(x.get("vty"))
        if w == 32:
            from ..sym import extv
            v = extv(v, 16, 16)
        elif not g.group(2).endswith("node_index"):
            return
        v = simp(v)
    else:
        v = simp(m.read(st, mkp(vals[2], 2), 2))
    return ("HEAD", g.group(1), v[1] & 0xffff if v[0] == "c" else None)


# ------------------------------------------------------------------ P03
POOL = "kpsr::SmartObjectPool"
KEEP = [r"kpsr::LockFreeStack<.*>::(push|pop|LockFreeStack|~LockFreeStack)"]


def head_slot(m, st, p):
    """content of a unique_ptr like cell"""
    return simp(m.read(st, p, 8, record=False))


def pool_member(s):
    """is this the path of the pool's own pointer to its stack (bare or inside a smart pointer)?"""
    return s == "this.pool_" or s.startswith("this.pool_.") and "->" not in s


def pool_ev(m, x, st, vals, res):
    q = x.callee or ""
    if q == STK + "::push":
        return ("PUSH", m.path(st, vals[0])[0], vals[0], head_slot(m, st, vals[1]), x.i)
    if q == STK + "::pop":
        return ("POP", m.path(st, vals[0])[0], vals[0], vals[1], res, x.i)
    if q == STK + "::LockFreeStack":
        return ("STACK", vals[0], vals[1], vals[2], x.i)
    if q == STK + "::~LockFreeStack":
        return ("~STACK", vals[0], x.i)
    if q.endswith("::lock") and "weak_ptr" in q:
        return ("LOCK", vals[1] if len(vals) > 1 else None, vals[0], x.i)
    if q in ("operator delete", "operator delete[]"):
        return ("DEL", simp(vals[0]), x.i)
    if q.startswith("KObj::~"):
        return ("DTOR", simp(vals[0]), x.i)
    if q == "std::function::operator()":
        return ("CALLF", vals[0], tuple(simp(v) for v in vals[1:]), m.path(st, vals[0])[0], x.i)
    if q == "std::function::operator bool":
        return ("HAVEF", vals[0], res, m.path(st, vals[0])[0])
    if q == "__cxa_throw":
        return ("THROW", repr(vals[1]), x.i)
    if q in ("std::weak_ptr::weak_ptr", "std::weak_ptr::operator=", "std::__weak_ptr::__weak_ptr") and len(vals) > 1:
        return ("WEAK", vals[0], vals[1], m.path(st, vals[1])[0])
    if q == "std::make_shared" or q == "std::allocate_shared":
        return ("MKSH", vals[0], vals[1], x.i)
    if x.op == "store":
        s, _ = m.path(st, vals[1])
        if s == "this.objectPoolFails":
            return ("COUNT", vals[0])
        if pool_member(s):
            return ("SETPOOL", vals[0])
        if m.fn.sq != POOL + "::SmartObjectPool" and vals[1] == ("arg", 1):
            return ("SLOT", vals[0])
    if x.op == "atomicrmw" and m.path(st, vals[0])[0].startswith("this.objectPoolFails"):
        return ("RMW", x.get("rmw"), vals[1])


def chk_deleter(c, f):
    n = "release"
    ends, m = walk(f, pool_ev)
    P1 = ("arg", 1)
    live = dead = 0
    for e in ends:
        if e.kind not in ("ret", "throw", "exc"):
            continue
        w = f.where(e.x)
        lk = e.evs("LOCK")
        pu = e.evs("PUSH")
        # operator delete of the object itself
        dels = [d for d in e.evs("DEL") if d[1] == P1]
        dd = [d for d in e.evs("DTOR") if d[1] == P1]
        isnull = m.decide(e.st, cmpv("eq", P1, NULL))
        if e.kind != "ret":
            continue
        state = None
        for l in lk:
            for k, t in e.st.facts.items():
                if k[0] == "cmp" and k[1] == "eq" and k[3] == NULL and k[2][0] == "ld" and base_of(k[2][1]) == base_of(l[2]):
                    state = t        # true: null
        if state is False:
            live += 1
            ok = len(pu) == 1 and pu[0][3] == P1
            c.ob("returned-once", n, ok and not dels and not dd, w, "an object released while its pool exists is not handed back exactly once")
            for q in pu:
                b = q[2]
                okp = False
                root = b
                for _ in range(6):
                    if root[0] in ("ld", "p"):
                        root = root[1]
                okp = root[0] == "al" and any(base_of(l[2]) == root for l in lk) and q[1].endswith("pool_->") or root[0] == "al" and any(base_of(l[2]) == root for l in lk)
                c.ob("own-pool", n, okp, f.where(f.insts[q[4]]), "the object is not handed to the stack of the locked pool")
        elif state is True:
            dead += 1
            c.ob("destroyed-once", n, not pu and (isnull or len(dels) == 1 and len(dd) == 1 or is_sink(e, P1)), w, "an object that outlives its pool is not destroyed exactly once")
        else:
            c.ob("pool-liveness-checked", n, isnull is True and not pu, w, "the object is released without checking that its pool still exists")
    c.ob("both-cases", n, live and dead, f.here(), "one of the two cases (pool alive, pool gone) is not handled")
    for e in ends:
        for l in e.evs("LOCK"):
            c.ob("own-token", n, l[1] is not None and base_of(l[1]) == ("arg", "this"), f.where(f.insts[l[3]]), "the liveness checked is not that of the pool the object came from")


def is_sink(e, v):
    return False


def chk_acquire(c, f):
    n = "acquire"
    ends, m = walk(f, pool_ev)
    okn = failn = 0
    for e in ends:
        w = f.where(e.x)
        pops = e.evs("POP")
        if e.kind == "stop" or not pops:
            if e.kind == "ret":
                c.ob("taken-from-pool", n, False, w, "a pointer is returned without taking an object from the pool")
            continue
        c.ob("one-pop", n, len(pops) == 1 and pops[0][1].startswith("this.pool_"), w, "acquire does not take exactly one object from its own pool")
        got = m.decide(e.st, pops[0][4])
        if e.kind == "ret":
            c.ob("success-means-taken", n, got is True, w, "acquire returns although the pool was empty")
            okn += 1
            # returned pointer is the popped element
            out = [v for (b, va, o), (s, v) in e.st.mem.items() if b == ("arg", 0) and s == 8]
            slot = base_of(pops[0][3])
            hit = [v for v in out if simp(v)[0] == "ld" and base_of(simp(v)[1]) == slot]
            c.ob("popped-object-returned", n, len(hit) == 1, w, "the returned pointer is not the object taken from the pool")
            if hit:
                v = simp(hit[0])
                c.ob("local-released", n, not any(d[1] == v for d in e.evs("DEL", "DTOR")) and simp(m.read(e.st, pops[0][3], 8, record=False)) != v, w, "the object is destroyed or still owned locally when acquire returns it")
            wk = [q for q in e.evs("WEAK")]
            tgt = [q for q in wk if base_of(q[1]) == ("arg", 0)]
            # follow copies back to this_ptr_
            def origin(q, d=6):
                if q[3].startswith("this.this_ptr_"):
                    return True
                return d > 0 and any(origin(r, d - 1) for r in wk if r is not q and r[1] == q[2])
            ok = any(origin(q) for q in tgt)
            c.ob("deleter-bound-to-this-pool", n, ok, w, "the deleter of the returned pointer is not bound to this pool")
        elif got is False:
            if not e.evs("THROW"):
                continue
            failn += 1
            th = e.evs("THROW")
            c.ob("empty-pool-throws", n, "out_of_range" in th[0][1], w, "an empty pool is not reported as out_of_range")
            cn = [q for q in e.evs("COUNT") if counts(m, q[1])] + [q for q in e.evs("RMW") if q[1] == "add" and q[2] == ("c", 1)]
            c.ob("failure-counted", n, len(cn) == 1 and len(e.evs("COUNT", "RMW")) == 1, w, "a failed acquisition is not counted exactly once")
        if got is True:
            c.ob("no-failure-counted", n, not e.evs("COUNT", "RMW"), w, "a successful acquisition counts as failure")
    c.ob("both-cases", n, okn and failn, f.here(), "acquire does not distinguish success from an empty pool")


def counts(m, v):
    from ..sem import linv
    d, k = linv(v)
    return k == 1 and len(d) == 1 and list(d.values()) == [1] and list(d)[0][0] == "ld"


def chk_dtor(c, f):
    n = "~SmartObjectPool" + (" (deleting)" if any(x.callee == "operator delete" and f.addr(x.ops[0]).key() == "this" for x in f.all() if x.is_call() and x.ops) else "")
    ends, m = walk(f, pool_ev)
    iters = drained = 0
    for e in ends:
        pops = e.evs("POP")
        w = f.where(e.x) if e.x is not None else f.here()
        if e.kind == "iter":
            iters += 1
            ok = len(pops) == 1 and m.decide(e.st, pops[0][4]) is True
            c.ob("drain-loop", n, ok, w, "an iteration of the destructor does not take exactly one object")
            if not ok:
                continue
            slot = pops[0][3]
            objs = [d for d in e.evs("DEL") if d[1][0] == "ld" and base_of(d[1][1]) == base_of(slot)]
            alive = [d for d in objs if m.decide(e.st, cmpv("eq", d[1], NULL)) is False]
            nulls = [k for k, t in e.st.facts.items() if k[0] == "cmp" and k[1] == "eq" and k[3] == NULL and t and k[2][0] == "ld" and base_of(k[2][1]) == base_of(slot)]
            c.ob("each-object-destroyed", n, len(objs) == 1 or (not objs and nulls), w, "an object taken from the pool is not destroyed exactly once")
            hf = [q for q in e.evs("HAVEF") if q[3].startswith("this._finalizerFunction")]
            cf = [q for q in e.evs("CALLF") if q[3].startswith("this._finalizerFunction")]
            has = [m.decide(e.st, q[2]) for q in hf]
            if True in has:
                okf = len(cf) == 1 and len(cf[0][2]) == 1 and cf[0][2][0][0] == "ld" and base_of(cf[0][2][0][1]) == base_of(slot)
                if okf and objs:
                    okf = e.ev.index(cf[0]) < e.ev.index(objs[0])
                    okf = okf and cf[0][2][0] == objs[0][1] or okf
                c.ob("finalised-before-destroyed", n, okf, w, "an object is destroyed without the finaliser having been called on it once")
            else:
                c.ob("finaliser-only-if-set", n, not cf and False in has, w, "the finaliser is not consulted, or called although none is set")
        elif e.kind == "ret":
            drained += 1
            fin = [q for q in pops if m.decide(e.st, q[4]) is False]
            c.ob("drained", n, len(fin) == 1 and e.ev.index(fin[0]) == max(e.ev.index(q) for q in pops), w, "the destructor ends although the pool may still hold objects")
            ds = e.evs("~STACK")
            own = [d for d in ds if d[1][0] == "ld" and pool_member(m.path(e.st, mkp(d[1][1], d[1][2], d[1][3]))[0])]
            nul = any(k[0] == "cmp" and k[1] == "eq" and k[3] == NULL and t and k[2][0] == "ld" and pool_member(m.path(e.st, mkp(k[2][1], k[2][2], k[2][3]))[0]) for k, t in e.st.facts.items())
            c.ob("stack-destroyed-once", n, len(own) == 1 and len(ds) == 1 or nul, w, "the stack is not destroyed exactly once")
            if own and fin:
                c.ob("stack-destroyed-last", n, e.ev.index(own[0]) > e.ev.index(fin[0]), w, "the stack is destroyed before it is empty")
    c.ob("drains", n, iters and drained, f.here(), "the destructor does not empty the pool")


def chk_ctor(c, f):
    n = "SmartObjectPool"
    ends, m = walk(f, pool_ev)
    k = 0
    for e in ends:
        if e.kind != "ret":
            continue
        k += 1
        w = f.where(e.x)
        st = e.evs("STACK")
        c.ob("one-stack", n, len(st) == 1, w, "the pool is not built on exactly one stack")
        for s in st:
            v = s[2]
            while v[0] == "cast":
                v = v[3]
            c.ob("size", n, v == ("arg", 2), f.where(f.insts[s[4]]), "the number of objects is not the size asked for")
        c.ob("stack-kept", n, any(q[1] == st[0][1] for q in e.evs("SETPOOL")) if st else False, w, "the pool does not keep its stack")
        mk = [q for q in e.evs("MKSH") if m.path(e.st, q[1])[0].startswith("this.this_ptr_")]
        c.ob("liveness-token", n, len(mk) == 1, w, "the pool has no liveness token of its own")
    c.need(k, "pool constructor has no normal exit")


def chk_init(c, f):
    n = "initialiser"
    ends, m = walk(f, pool_ev, exc=False)
    for e in ends:
        if e.kind != "ret":
            continue
        w = f.where(e.x)
        sl = e.evs("SLOT")
        out = simp(sl[-1][1]) if sl else NULL
        c.ob("slot-gets-new-object", n, out[0] == "new" and not any(q[1] == out for q in e.evs("DEL", "DTOR")), w, "a slot of the pool is not filled with a new object")
        hf = [m.decide(e.st, q[2]) for q in e.evs("HAVEF")]
        cf = e.evs("CALLF")
        if True in hf:
            c.ob("initialised-once", n, len(cf) == 1 and (cf[0][2] == (out,) or cf[0][2][0][:4] == ("ld", ("arg", 1), 0, ())) and bool(sl) and e.ev.index(sl[-1]) < e.ev.index(cf[0]), w, "a new object is not initialised exactly once")
        else:
            c.ob("initialiser-only-if-set", n, not cf and False in hf, w, "the initialiser is not consulted, or called although none is set")


@prop("P03", "path-sensitive ownership typestate of pooled objects over deleter, acquire, constructor and destructor",
      "Decides every path of the pool's own code; releasing an object while the pool's destructor is running on another thread is outside the domain.")
def p03(c):
    c.assumption("the pool is not destroyed concurrently with acquire or with a release that has already locked the pool")
    p = c.program("stack.cpp", [r"kpsr::SmartObjectPool<KObj.*(acquire|SmartObjectPool|operator\(\))"], keep=KEEP, inline=[r"^std::make_unique$"])
    done = set()
    for f in p.fns.values() if isinstance(p.fns, dict) else p.fns:
        d = f.dem
        if not f.sq.startswith(POOL):
            continue
        kind = None
        if "ReturnToPool_Deleter::operator()" in d:
            kind = chk_deleter
        elif d.endswith("::acquire()"):
            kind = chk_acquire
        elif "~SmartObjectPool()" in d:
            kind = chk_dtor
        elif "lambda" in d and "operator()" in d:
            kind = chk_init
        elif f.sq == POOL + "::SmartObjectPool":
            kind = chk_ctor
        if kind:
            c.analysed(f)
            done.add(kind)
            kind(c, f)
    c.need(done == {chk_deleter, chk_acquire, chk_dtor, chk_init, chk_ctor}, "a part of the pool was not found: %s" % sorted({k.__name__ for k in (chk_deleter, chk_acquire, chk_dtor, chk_init, chk_ctor)} - {k.__name__ for k in done}))
    # every query of the pool compiles
    from .ring import witness
    q = "#include <klepsydra/core/smart_object_pool.h>\nstruct E { long v; };\n"
    witness(c, "pool-queries-compile", [("empty", "bool f(kpsr::SmartObjectPool<E> &p) { return p.empty(); }\n", True, "empty() of the pool does not compile"),
                                        ("size", "size_t f(kpsr::SmartObjectPool<E> &p) { return p.size(); }\n", True, "size() of the pool does not compile")], hdr=q)
