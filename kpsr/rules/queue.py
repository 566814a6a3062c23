"""Safe queue and queue pollers."""
import re

from ..core import prop
from ..ir import AnalysisBroken, api
from ..locks import lock_event, replay
from ..sem import F, NULL, T, castv, cmpv, linv, mkp, simp, walk, base_of

SQ = "kpsr::mem::SafeQueue"
MUTATE = {"push", "emplace", "pop", "swap", "operator=", "~queue", "queue"}


def pth(m, st, v):
    s = m.path(st, v)[0]
    o = m.fn.argname(1)
    return re.sub(r"^%s\b" % re.escape(o), "sq", s) if o else s


def qev(m, x, st, vals, res):
    e = lock_event(m, x, st, vals, res, pth)
    if e:
        return e
    q = x.callee or ""
    g = re.match(r"^std::queue::(~?\w+=?)$", q)
    if g:
        k = g.group(1)
        if k == "operator=":
            pass
        return ("Q", k, owner(pth(m, st, vals[0])), vals[1:], res, x.i, owner(pth(m, st, vals[1])) if len(vals) > 1 else None)
    g = re.match(r"^std::(?:__cxx11::)?list::(~?[\w]+=?)$", q)
    if g and vals:
        return ("RAWQ", g.group(1), pth(m, st, vals[0]), x.i)
    if q.startswith("kpsr::mem::KItem::"):
        k = q.rsplit("::", 1)[1]
        if k == "operator=":
            return ("ASSIGN", simp(vals[0]), simp(vals[1]), x.i)
        return
    if x.op == "load":
        s = pth(m, st, vals[0])
        if s.endswith(".m_max_num_items"):
            return ("MAX", s[:-len(".m_max_num_items")], res, x.i)
    if x.op == "store":
        s = pth(m, st, vals[1])
        if s.endswith(".m_max_num_items"):
            return ("SETMAX", s[:-len(".m_max_num_items")], vals[0], x.i)


THR = lambda x: x.callee != "std::lock" and not (x.callee or "").endswith("mutex::lock")
EFF = lambda x: "none" if re.match(r"^std::queue::(size|empty|front|back)$", x.callee or "") else None


def window(e, k, o):
    """events about o that are still valid before position k, and the limits read under the current hold"""
    fresh, mx = [], []
    for ev in e.ev[:k]:
        if ev[0] in ("LOCK", "UNLOCK", "WAIT") or ev[0] == "LOOP":
            fresh, mx = [], []
        elif ev[0] == "Q" and ev[2] == o:
            if ev[1] in MUTATE:
                fresh = [ev] if ev[1] in ("push", "emplace") else []
            else:
                fresh.append(ev)
        elif ev[0] == "MAX" and ev[1] == o:
            mx.append(ev[2])
        elif ev[0] == "SETMAX" and ev[1] == o:
            mx = [ev[2]]
    return fresh, mx


def full(e, k, o, st=None):
    """True / False / None before position k"""
    m, st = e.m, st or e.st
    fresh, mx = window(e, k, o)
    for v in mx:
        if m.decide(st, cmpv("eq", v, ("c", 0))) is True:
            return False
    for q in fresh:
        if q[1] == "size":
            for v in mx:
                d = m.decide(st, cmpv("ult", simp(q[4]), castv("zext", 64, v)))
                if d is True:
                    return False
                if d is False and m.decide(st, cmpv("eq", v, ("c", 0))) is False:
                    return True
    return None


def empty(e, k, o, st=None):
    m, st = e.m, st or e.st
    fresh, mx = window(e, k, o)
    for q in fresh:
        if q[1] in ("push", "emplace"):
            return False
        if q[1] == "empty":
            d = m.decide(st, q[4])
            if d is not None:
                return d
        if q[1] == "size":
            d = m.decide(st, cmpv("eq", simp(q[4]), ("c", 0)))
            if d is not None:
                return d
    return False if full(e, k, o, st) else None


def feasible(e):
    """the same question about an unchanged queue has one answer"""
    cur = {}
    for ev in e.ev:
        if ev[0] in ("LOCK", "UNLOCK", "WAIT", "LOOP"):
            cur = {}
        elif ev[0] == "Q":
            if ev[1] in MUTATE:
                cur.pop(ev[2], None)
            elif ev[1] in ("empty", "size"):
                d = e.m.decide(e.st, ev[4] if ev[1] == "empty" else cmpv("eq", simp(ev[4]), ("c", 0)))
                if d is not None and cur.setdefault(ev[2], d) != d:
                    return False
    return True


def methods(c):
    p = c.program("queue.cpp", [r"kpsr::mem::SafeQueue<kpsr::mem::KItem.*::(~?[A-Za-z_]+|operator=)"])
    r = []
    for f in p.all():
        if f.sq.startswith(SQ + "::") and "lambda" not in f.dem and f.access == "public":
            r.append(f)
    r = api(r, "set_max_num_items push move_push try_push try_move_push force_move_push pop move_pop try_pop try_move_pop timeout_pop timeout_move_pop size empty full swap operator= SafeQueue ~SafeQueue")
    c.need(len(r) >= 18, "the methods of the safe queue were not found")
    return r


def label(f):
    s = f.sq.rsplit("::", 1)[1]
    a = f.dem[f.dem.rindex("("):] if "(" in f.dem else ""
    return s + (" &&" if "&&" in a else "")


def owner(s):
    return s.split(".")[0]


@prop("Q01", "path-sensitive lock replay: guarded-field discipline, release on every exit, deadlock-free acquisition of two queues",
      "Every access to the contents and the limit on every path of every method of the template, including the exception paths; std::mutex and std::lock are trusted.")
def q01(c):
    c.assumption("std::mutex, std::unique_lock, std::lock and std::condition_variable follow the standard")
    for f in methods(c):
        c.analysed(f)
        n = label(f)
        short = f.sq.rsplit("::", 1)[1]
        ctor, dtor = short == "SafeQueue", short == "~SafeQueue"
        ends, m = walk(f, qev, effects=EFF, throws=THR)
        ends = [e for e in ends if feasible(e)]
        acc, order = 0, set()
        for e in ends:
            c.count("paths")
            pr = []
            rp, held = replay(e, pr)
            w = f.where(e.x) if e.x is not None else f.here()
            for b in pr:
                if b[1] == "nested":
                    d = m.decide(e.st, cmpv("ult", ("arg", "this"), ("arg", 1)))
                    first = b[2][-1]
                    order.add(None if d is None else (owner(first) == "this") == d)
                    continue
                c.ob("lock-discipline", n, False, f.where(f.insts[b[0][2] if b[0][0] != "WAIT" else b[0][3]]), b[1])
            if e.kind == "iter":
                before = replay_pre(e)
                c.ob("loop-keeps-lock", n, sorted(held) == sorted(before), w, "a loop iteration changes what is locked")
            elif e.kind in ("ret", "throw", "exc"):
                c.ob("released-on-exit", n, not held, w, "%s is still locked when the method is left" % ", ".join(held))
            for ev, hd in rp:
                if ev[0] == "Q":
                    o, i = [ev[2]], ev[5]
                    if ev[6] in ("this", "sq") and ev[1] in ("operator=", "swap", "queue"):
                        o.append(ev[6])
                elif ev[0] in ("MAX", "SETMAX"):
                    o, i = [ev[1]], ev[3]
                elif ev[0] == "RAWQ":
                    o, i = [ev[2].split(".")[0]], ev[3]
                else:
                    continue
                for s in o:
                    if "#" in s or s == "this" and (ctor or dtor):
                        continue
                    acc += 1
                    c.ob("access-under-lock", n, s + ".m_mutex" in hd, f.where(f.insts[i]), "the queue of %s is used without holding its mutex" % s)
        if order:
            c.ob("two-queues-in-order", n, len(order) == 1 and None not in order, f.here(), "two queues are locked one after the other in no fixed order: two threads doing so can deadlock")
        c.count("accesses", acc)
        if short in ("push", "pop", "try_push", "try_pop", "move_push", "swap", "operator=", "size", "empty", "full"):
            c.ob("accesses-queue", n, acc > 0, f.here(), "the method does not use the queue")


def replay_pre(e):
    class X:
        pass
    x = X()
    x.pre, x.ev, x.m, x.st = (), e.pre, e.m, e.st
    return replay(x)[1]


WAITS = {"push": True, "move_push": True, "pop": True, "move_pop": True, "timeout_pop": None, "timeout_move_pop": None}
PUSHERS = ("push", "move_push", "try_push", "try_move_push", "force_move_push")
POPPERS = ("pop", "move_pop", "try_pop", "try_move_pop", "timeout_pop", "timeout_move_pop")


@prop("Q02", "path-sensitive event analysis of every method under one lock hold (knowledge about empty/full is dropped at every wait, unlock and mutation)",
      "Decides order, bound, success/failure meaning, exception behaviour and wake-ups on every path; combined with Q01 (everything in one critical section) it holds for every schedule.")
def q02(c):
    c.assumption("std::queue over std::list is a FIFO container and its size() is its number of elements")
    seen = {}
    notes = {"push": set(), "pop": set()}
    waits = {"push": set(), "pop": set()}
    for f in methods(c):
        short = f.sq.rsplit("::", 1)[1]
        n = label(f)
        c.analysed(f)
        ends, m = walk(f, qev, effects=EFF, throws=THR)
        ends = [e for e in ends if feasible(e)]
        seen.setdefault(short, 0)
        ok_paths = 0
        for e in ends:
            if e.kind == "stop":
                continue
            c.count("paths")
            w = f.where(e.x) if e.x is not None else f.here()
            ctor = short in ("SafeQueue", "~SafeQueue")
            for k, ev in enumerate(e.ev):
                if ev[0] != "Q":
                    continue
                o, wi = ev[2], f.where(f.insts[ev[5]])
                if "#" in o:
                    continue
                if ev[1] in ("push", "emplace"):
                    if e.kind == "iter":
                        c.ob("one-push", n, False, wi, "items are pushed in a loop")
                    c.ob("bounded", n, full(e, k, o) is False, wi, "an item is added although the queue may be full")
                    c.ob("item-is-argument", n, simp(ev[3][0]) == ("arg", 1), wi, "what is pushed is not the given item")
                if ev[1] in ("front", "pop"):
                    if ev[1] == "pop" and short == "force_move_push":
                        c.ob("discards-only-when-full", n, full(e, k, o) is True, wi, "an old item is discarded although the queue is not full")
                    c.ob("not-empty", n, empty(e, k, o) is False, wi, "%s() of a queue that may be empty" % ev[1])
                if ev[1] == "back":
                    c.ob("fifo", n, False, wi, "the newest item is used")
            if e.kind == "iter":
                if short == "force_move_push":
                    pops = [q for q in e.evs("Q") if q[1] == "pop"]
                    c.ob("discard-counted", n, len(pops) == 1 and any(new is not None and old is not None and plus1(old, new) for old, new in (e.phis or {}).values()), w, "a discarded item is not counted")
                elif any(q[1] in MUTATE for q in e.evs("Q")):
                    c.ob("no-loop", n, False, w, "the contents change in a loop")
                for q in e.evs("WAIT"):
                    waits["push" if short in PUSHERS else "pop"].add(q[1])
                continue
            for q in e.evs("WAIT"):
                c.ob("no-wait-in-try", n, short in WAITS, w, "a non-blocking operation waits")
                if short in PUSHERS or short in POPPERS:
                    waits["push" if short in PUSHERS else "pop"].add(q[1])
            pu = [q for q in e.ev if q[0] == "Q" and q[1] in ("push", "emplace") and "#" not in q[2]]
            po = [q for q in e.ev if q[0] == "Q" and q[1] == "pop" and "#" not in q[2]]
            asg = [q for q in e.evs("ASSIGN") if q[1] == ("arg", 1)]
            if e.kind in ("throw", "exc"):
                if short in POPPERS:
                    c.ob("no-loss-on-exception", n, not po, w, "an item is removed although handing it over can still fail")
                if short in PUSHERS and short != "force_move_push":
                    c.ob("no-loss-on-exception", n, not po, w, "items are removed by a failing push")
                continue
            if short in PUSHERS:
                t = True if short == "force_move_push" else e.truth()
                c.ob("result-known", n, t is not None, w, "the result is not decided")
                if t:
                    ok_paths += 1
                    c.ob("pushed-once", n, len(pu) == 1, w, "success is reported although %d items were added" % len(pu))
                    if pu:
                        nt = [q for q in e.ev[e.ev.index(pu[0]):] if q[0] == "NOTIFY"]
                        if nt:
                            notes["push"].add((nt[0][1], nt[0][2]))
                        c.ob("push-wakes", n, bool(nt), w, "a waiting consumer is not woken")
                    if short != "force_move_push":
                        c.ob("no-removal", n, not po, w, "a push removes items")
                    else:
                        chk_count(c, f, e, po, n, w)
                else:
                    c.ob("failure-changes-nothing", n, not pu and not po, w, "a failing push changes the queue")
                    c.ob("fails-only-when-full", n, full(e, len(e.ev) - tail(e), "this") is True, w, "failure is reported although the queue was not seen full")
                    c.ob("blocking-push-succeeds", n, short.startswith("try"), w, "a blocking push gives up")
            elif short in POPPERS:
                t = True if short in ("pop", "move_pop") else e.truth()
                c.ob("result-known", n, t is not None, w, "the result is not decided")
                if t:
                    ok_paths += 1
                    c.ob("popped-once", n, len(po) == 1, w, "success is reported although %d items were removed" % len(po))
                    fr = [q for q in e.ev if q[0] == "Q" and q[1] == "front"]
                    good = len(asg) == 1 and any(simp(q[4]) == asg[0][2] for q in fr)
                    c.ob("oldest-delivered", n, good, w, "the delivered value is not the oldest item")
                    if good and po:
                        c.ob("read-before-removal", n, e.ev.index(asg[0]) < e.ev.index(po[0]), w, "the item is read after it was removed")
                        src = [q for q in fr if simp(q[4]) == asg[0][2]][0]
                        a, b = e.ev.index(src), e.ev.index(po[0])
                        c.ob("same-item", n, not any(q[0] in ("LOCK", "UNLOCK", "WAIT") for q in e.ev[a:b]), w, "the lock is given up between reading and removing the item")
                    if po:
                        nt = [q for q in e.ev[e.ev.index(po[0]):] if q[0] == "NOTIFY"]
                        if nt:
                            notes["pop"].add((nt[0][1], nt[0][2]))
                        c.ob("pop-wakes", n, bool(nt), w, "a waiting producer is not woken")
                    c.ob("no-insertion", n, not pu, w, "a pop adds items")
                else:
                    c.ob("failure-changes-nothing", n, not pu and not po and not asg, w, "a failing pop changes the queue or the output")
                    c.ob("fails-only-when-empty", n, empty(e, len(e.ev) - tail(e), "this") is True, w, "failure is reported although the queue was not seen empty")
                    if short.startswith("timeout"):
                        zero = m.decide(e.st, cmpv("eq", ("arg", 2), ("c", 0)))
                        wt = e.evs("WAIT") or [q for z in ends if z.kind == "iter" and ("LOOP", z.header) in e.ev for q in z.evs("WAIT")]
                        c.ob("waits-before-giving-up", n, zero is True or bool(wt), w, "the operation gives up without waiting")
            elif short == "set_max_num_items":
                sm = e.evs("SETMAX")
                c.ob("limit-set", n, len(sm) == 1 and simp(sm[0][2]) == ("arg", 1), w, "the limit is not the one given")
                nt = [q for q in e.ev[e.ev.index(sm[0]):] if q[0] == "NOTIFY" and q[2] == "all"] if sm else []
                c.ob("limit-wakes", n, any(q[1] in ("this." + z for z in conds(f)) for q in nt), w, "producers waiting for the old limit are not woken")
                for q in nt:
                    notes.setdefault("limit", set()).add(q[1])
            elif short == "swap" or short == "operator=":
                chk_whole(c, f, e, n, short, w, notes, m)
            elif ctor and short == "SafeQueue":
                chk_ctor(c, f, e, n, w, m, notes)
            elif short in ("size", "empty", "full"):
                chk_query(c, f, e, n, short, w, m)
            if short in ("size", "empty", "full", "set_max_num_items"):
                c.ob("query-changes-nothing", n, not pu and not po, w, "a query changes the contents")
        seen[short] += ok_paths
        if short.startswith("timeout"):
            chk_deadline(c, f, n)
        if short in PUSHERS or short in POPPERS:
            c.ob("can-succeed", n, ok_paths > 0, f.here(), "no path succeeds")
    for s in PUSHERS + POPPERS:
        c.need(s in seen, "SafeQueue::%s is gone" % s)
    pn, cn = {a for a, _ in notes["push"]}, {a for a, _ in notes["pop"]}
    same = len(pn | cn) == 1
    for a, b, d, what in ((pn, waits["pop"], "consumers", "push"), (cn, waits["push"], "producers", "pop")):
        c.ob("condition-pairing", what, len(a) == 1 and b == a, "", "a %s wakes %s but the %s wait on %s" % (what, sorted(a), d, sorted(b)))
        c.ob("wake-reaches-right-side", what, not same or all(k == "all" for _, k in notes[what]), "", "producers and consumers share a condition and only one waiter is woken")
    if cn:
        c.ob("limit-wakes-producers", "set_max_num_items", cn <= notes.get("limit", set()), "", "a raised limit does not wake the producers")


def conds(f):
    return ("m_non_full_condition", "m_non_empty_condition")


def tail(e):
    """events after the last look at the queue (unlocking) do not count"""
    n = 0
    for ev in reversed(e.ev):
        if ev[0] in ("UNLOCK", "NOTIFY"):
            n += 1
        else:
            break
    return n


def plus1(old, new):
    d, k = linv(new)
    d0, k0 = linv(old)
    return d == d0 and k == k0 + 1


def chk_count(c, f, e, po, n, w):
    if ("LOOP" in [q[0] for q in e.ev]):
        v = e.val
        ph = [k for k, q in e.st.env.items() if q == v and f.insts[k].op == "phi" and f.insts[k].blk in e.m.loops] if v is not None else []
        c.ob("discards-reported", n, bool(ph), w, "the number of discarded items is not what is returned")
    else:
        c.ob("discards-reported", n, e.val is not None and simp(e.val) == ("c", len(po)), w, "the number of discarded items is not what is returned")


def chk_whole(c, f, e, n, short, w, notes, m):
    same = m.decide(e.st, cmpv("eq", ("arg", "this"), ("arg", 1)))
    mut = [q for q in e.ev if q[0] == "Q" and q[1] in ("swap", "operator=") and "#" not in q[2]]
    if same is True:
        c.ob("self-operation", n, not mut, w, "an operation of a queue with itself changes it")
        return
    c.ob("whole-contents", n, len(mut) == 1 and mut[0][2] == "this", w, "the contents are not exchanged or assigned exactly once")
    if not mut:
        return
    q = mut[0]
    if short == "swap":
        c.ob("contents-exchanged", n, q[1] == "swap", w, "the contents are assigned, not exchanged")
    elif "&&" in f.dem[f.dem.rindex("("):]:
        c.ob("contents-taken-over", n, taken(e, f, q), w, "the items stay in the source of a move: they would be delivered twice")
    if q[6] == "sq" or "sq" == owner(q[6] or ""):
        c.ob("contents-from-argument", n, True, w)
    else:
        src = [z for z in e.ev[:e.ev.index(q)] if z[0] == "Q" and z[1] == "queue" and z[2] == q[6] and owner(z[6] or "") == "sq"]
        c.ob("contents-from-argument", n, len(src) == 1 and short != "swap", w, "the contents do not come from the other queue")
    k = e.ev.index(q)
    nt = [z for z in e.ev[k:] if z[0] == "NOTIFY"]
    alln = {z[1] for z in nt if z[2] == "all"}
    cs = sorted({z[1].split(".", 1)[1] for z in nt if "." in z[1]} | set(conds(f)))
    touched = ["this"] + (["sq"] if short == "swap" or "&&" in f.dem[f.dem.rindex("("):] else [])
    for o in touched:
        c.ob("whole-wakes-producers", n + " " + o, o + ".m_non_full_condition" in alln, w, "producers waiting on a queue whose contents were replaced are not woken")
        if o == "sq" and short != "swap":
            continue
        emp = empty_after(e, k, o)
        c.ob("whole-wakes-consumers", n + " " + o, emp is True or o + ".m_non_empty_condition" in alln, w, "consumers waiting on a queue whose contents were replaced are not woken")


def taken(e, f, q):
    """do the items leave the other queue with this operation, or with the making of the temporary it uses?"""
    def moves(z):
        if z[1] == "swap":
            return True
        d = f.insts[z[5]].get("dem") or ""
        return "&&" in d[d.rindex("(") if "(" in d else 0:]
    if owner(q[6] or "") == "sq":
        return moves(q)
    return any(z[1] in ("queue", "swap") and z[2] == q[6] and owner(z[6] or "") == "sq" and moves(z) for z in e.ev[:e.ev.index(q)] if z[0] == "Q")


def empty_after(e, k, o):
    for z in e.ev[k + 1:]:
        if z[0] == "Q" and z[2] == o and z[1] == "empty":
            return e.m.decide(e.st, z[4])
        if z[0] == "Q" and z[2] == o and z[1] == "size":
            return e.m.decide(e.st, cmpv("eq", simp(z[4]), ("c", 0)))
    return None


def chk_ctor(c, f, e, n, w, m, notes):
    cp = "SafeQueue" in f.dem[f.dem.rindex("("):]
    mx = simp(m.read(e.st, field(f, "m_max_num_items"), 4, record=False))
    if not cp:
        c.ob("limit-stored", n, mx == ("arg", 1), w, "a new queue does not have the limit asked for")
        return
    mk = [q for q in e.evs("MAX") if q[1] == "sq" and simp(q[2]) == mx]
    c.ob("limit-copied", n, bool(mk), w, "a copied queue does not have the limit of its source")
    src = [q for q in e.ev if q[0] == "Q" and q[1] in ("operator=", "queue", "swap") and q[2] == "this" and q[6] == "sq"]
    c.ob("contents-copied", n, len(src) == 1, w, "a copied queue does not have the contents of its source")
    if "&&" in f.dem[f.dem.rindex("("):]:
        c.ob("contents-taken-over", n, len(src) == 1 and taken(e, f, src[0]), w, "the items stay in the source of a move: they would be delivered twice")
        c.ob("move-wakes-producers", n, any(q[1] == "sq.m_non_full_condition" and q[2] == "all" for q in e.evs("NOTIFY")), w, "producers waiting on the emptied source are not woken")


def field(f, name):
    return mkp(("arg", "this"), f.field(name)[0])


def chk_query(c, f, e, n, short, w, m):
    if short in ("size", "empty"):
        q = [z for z in e.ev if z[0] == "Q" and z[1] in ("size", "empty")]
        v = simp(e.val)
        ok = any(simp(z[4]) == v and z[1] == short for z in q)
        if not ok and short == "empty":
            t = e.truth()
            ok = t is not None and empty(e, len(e.ev) - tail(e), "this") == t or any(z[1] == "size" and v == cmpv("eq", simp(z[4]), ("c", 0)) for z in q)
        c.ob("query-result", n, ok, w, "%s() does not report the state of the queue" % short)
        return
    for t in (True, False):
        st = e.st.copy()
        if not m.assume(st, e.val, t):
            continue
        c.ob("query-result", n, full(e, len(e.ev) - tail(e), "this", st) == t, w, "full() does not report whether the limit is reached")


def chk_deadline(c, f, n):
    """the deadline of the timed wait is now + timeout microseconds"""
    def ev(m, x, st, vals, res):
        if re.match(r"^std::(_V2::)?condition_variable(_any)?::wait_(until|for)", x.callee or "") and len(vals) > 2:
            return ("DL", simp(m.read(st, vals[2], 8, record=False)), x.i, x.callee)
    ends, m = walk(f, ev, effects=EFF, throws=THR)
    ds = {q for e in ends for q in e.evs("DL")}
    c.ob("timed-wait", n, bool(ds), f.here(), "no timed wait")
    for d in ds:
        t, k = linv(d[1])
        now = [a for a in t if a[0] == "call" and "clock::now" in (f.insts[a[1]].callee or "")]
        rest = [(a, z) for a, z in t.items() if a not in now]
        mul = None
        if len(rest) == 1:
            a, z = rest[0]
            if a == ("arg", 2):
                mul = z
            elif a[0] == "op" and a[1] == "mul" and a[3] == ("arg", 2) and a[4][0] == "c":
                mul = z * a[4][1]
            elif a[0] == "op" and a[1] == "shl" and a[3] == ("arg", 2) and a[4][0] == "c":
                mul = z << a[4][1]
        rel = d[3].endswith("wait_for")
        ok = mul == 1000 and k == 0 and (len(now) == 1 and t[now[0]] == 1 if not rel else not now)
        # a relative wait keeps microseconds when it is not converted
        ok = ok or rel and not now and mul == 1 and k == 0
        c.ob("timeout-in-microseconds", n, ok, f.where(f.insts[d[2]]), "the deadline is not the current time plus the given number of microseconds")
