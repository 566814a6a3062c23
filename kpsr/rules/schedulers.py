"""Schedulers: life of the threads of scheduled tasks, time between runs, tasks on an event loop."""
import os
import re
from fractions import Fraction

from ..build import REPO
from ..cont import KEEP
from ..core import prop
from ..sem import ptr, simp, truthy
from .emitters import A, AN, is_arg, puts, strip
from .fsm import where
from .highperf import base, fn_at, function_of, in_map, known, made_shared, mems, moved, pointed, threads
from .publishers import calls, lambda_of, only, text_kept, ways
from .services import THIS

B = "kpsr::mem::BasicScheduler"
S = B + "::ScheduledThread"
BASIC = REPO + "/core/modules/mem_mdlw/src/basic_scheduler.cpp"
LOOP = REPO + "/high_performance/modules/high_performance/src/event_loop_scheduler.cpp"
NOW = r"^std::chrono::(_V2::)?(system|steady|high_resolution)_clock::now$"


def name_of(L, e, v, k):
    """text of a string, copies looked through"""
    return L.text(e, v, k)


def service_name(key, arg):
    """is that text the name in the statistics of the service?"""
    return len(key) == 1 and key[0][0] == "ld" and re.match(re.escape(arg) + r"\.serviceStats\.(_?name|_?serviceName)$", key[0][1] or "") is not None


def task_given(L, e, v, k, param):
    """is that function object a copy of the parameter?"""
    return fn_at(L, e, v, k) == ("arg", param[1])


# ------------------------------------------------------------------ T01
def start_task(c, p, f, M):
    L, ends, _ = ways(c, f)
    inst, n = "startScheduledTask", 0
    mp = "this." + M["map"][0]
    key = (("ld", AN(f, 1)),)
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        mk = [z for z in t.ev if z[0] == "CALL" and z[1] == S + "::ScheduledThread"] + made_shared(t, "ScheduledThread")
        st = calls(t, re.escape(S) + "::start$")
        if e.kind == "iter":
            ob("made-once", not [z for z in t.mine if z in mk or z in st], "threads are made in a loop")
            continue
        if e.kind != "ret":
            continue
        n += 1
        ob("made-once", len(mk) == 1 and len(st) == 1, "not exactly one thread is made and started for the task")
        if len(mk) != 1 or len(st) != 1:
            continue
        z, k = mk[0], t.at(mk[0])
        a = z[2] if z[1].endswith("::ScheduledThread") else z[2][-5:]
        obj = a[0]
        ob("own-arguments", len(a) == 5 and name_of(L, e, a[1], k) == key and arg_value(t, L, e, a[2], k, A(f, 2)) and arg_value(t, L, e, a[3], k, A(f, 3)) and task_given(L, e, a[4], k, A(f, 4)), "name, time, repetition and task do not all come to the thread")
        pt = [x for x in puts(L, e, mp)]
        ks = [x for x in pt if x[0] != "%s" % show_key(key)]
        ob("other-tasks-kept", not ks and not [y for y in t.ev if y[0] in ("clear", "swap", "merge", "extract", "assign") and y[2] and L.cname(e, y) == mp] and all(L.text(e, y[2][1], t.at(y)) == key or of_find(L, e, y, mp, key) for y in t.ev if y[0] == "erase" and L.cname(e, y) == mp), "a thread is kept under another name, or another task is dropped")
        mine = [x for x in pt if x[0] == show_key(key) and holds(L, e, x[1], t.at(x[2]), obj)]
        ob("thread-kept", bool(mine), "the thread is not kept under the name of its task: it cannot be stopped")
        over = [x for x in mine if x[2][0] in ("p.assign", "STORE", "mapat", "assign-key")]
        gone = [y for y in t.ev if y[0] == "CALL" and y[1].endswith("::stopScheduledTask") and name_of(L, e, y[2][1], t.at(y)) == key or y[0] == "erase" and L.cname(e, y) == mp] or (in_map(L, e, mp, key) is False and [t.ev[0]] or [])
        first = [t.at(x[2]) for x in over] + [t.at(y) for y in gone]
        ob("old-stopped", bool(first) and min(first) < t.at(st[0]), "the new thread of a task starts while the old one may still run")
        ob("old-stopped", bool(over or gone), "a task that exists already keeps the new one from being kept")
        q = st[0]
        v = pointed(L, e, q[2][0], t.at(q))
        own = base(q[2][0]) == base(obj) or v is not None and (ptr(simp(v[0])) == ptr(simp(obj)) or L.desc(e, v[0], v[1]) == "%s{%s}" % (mp, show_key(key)) or holds(L, e, v[0], v[1], obj))
        ob("own-thread", own, "another thread is started")
    c.ob("made-once", inst, n > 0, f.here(), "the method never comes back")


def show_key(key):
    from ..cont import show
    return show(key)


def of_find(L, e, y, mp, key):
    """an erase by the position that was found for the key"""
    t = L.of(e)
    v = simp(y[2][1]) if len(y[2]) > 1 else None
    if v is None:
        return False
    d = L.desc(e, y[2][1], t.at(y))
    if d == "%s{%s}" % (mp, show_key(key)) or d.startswith("%s{%s}" % (mp, show_key(key))):
        return True
    return any(z[0] == "find" and L.cname(e, z) == mp and L.text(e, z[2][1], t.at(z)) == key and z[3] is not None and simp(z[3]) in (v, t.origin(y[2][1], t.at(y))[0]) for z in t.ev[:t.at(y)])


def holds(L, e, v, k, obj):
    """does that shared pointer hold the object?"""
    t = L.of(e)
    if v is None or v[0] == "second":
        return True
    if ptr(simp(v)) == ptr(simp(obj)) or base(v) == base(obj):
        return True
    if L.desc(e, v, k) == L.desc(e, obj, k):
        return True
    o, _ = t.origin(v, k)
    for y in t.ev[:k]:
        if y[0] in ("p.ctor", "p.reset", "p.assign") and len(y[2]) > 1 and ptr(simp(y[2][0])) in (ptr(simp(o)), ptr(simp(v))) and base(y[2][1]) == base(obj):
            return True
    return ptr(simp(o)) == ptr(simp(obj))


def arg_value(t, L, e, v, k, a):
    """is it that parameter, possibly through a copy in memory?"""
    v = strip(v)
    if is_arg(v, a):
        return True
    if truthy(t.m, t.st, v) is not None and truthy(t.m, t.st, v) == truthy(t.m, t.st, a) and v[0] == "c":
        return True
    for y in reversed(t.ev[:k]):
        if y[0] == "STORE" and ptr(simp(y[2][0])) == ptr(v):
            return is_arg(strip(y[2][1]), a)
    return False


def stop_task(c, p, f, M):
    L, ends, _ = ways(c, f)
    inst, n = "stopScheduledTask", 0
    mp = "this." + M["map"][0]
    key = (("ld", AN(f, 1)),)
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        er = [y for y in t.ev if y[0] == "erase" and L.cname(e, y) == mp]
        ob("other-tasks-kept", not [y for y in t.ev if y[0] in ("clear", "swap", "merge", "extract", "assign", "insert") and y[2] and L.cname(e, y) == mp], "other tasks are dropped or tasks are made")
        for y in er:
            ob("other-tasks-kept", L.text(e, y[2][1], t.at(y)) == key or of_find(L, e, y, mp, key), "another task is dropped")
        for z in calls(t, re.escape(S) + "::stop$"):
            v = pointed(L, e, z[2][0], t.at(z))
            ob("other-tasks-kept", v is not None and (L.desc(e, v[0], v[1]).startswith("%s{%s}" % (mp, show_key(key))) or of_find(L, e, (None, None, (None, v[0]), None, z[4], None), mp, key) if False else v is not None and re.match(re.escape("%s{%s}" % (mp, show_key(key))), L.desc(e, v[0], v[1])) is not None), "another task is stopped")
        if e.kind != "ret":
            continue
        there = in_map(L, e, mp, key)
        ob("stopped", bool(er) or there is False, "a task that exists goes on running")
        n += bool(er)
    c.ob("stopped", inst, n > 0, f.here(), "tasks are never stopped")


def service(c, p, f, inst, target, want, owner=None):
    """a method that passes a service's work on under the name of the service"""
    L, ends, _ = ways(c, f)
    n = 0
    sv = A(f, len(f.args) - 1)
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        cs = calls(t, target)
        if e.kind == "iter":
            ob("passed-on", not cs, "the request is passed on in a loop")
            continue
        if e.kind != "ret":
            continue
        n += 1
        ob("passed-on", len(cs) == 1, "the request is not passed on exactly once")
        for z in cs[:1]:
            k = t.at(z)
            if owner is not None:
                ob("passed-on", ptr(simp(z[2][0]))[:2] == owner, "the request goes to another scheduler")
            if z[1].endswith("Service"):
                ob("own-service", is_arg(strip(z[2][1]), sv), "another service is passed on")
                continue
            ob("own-name", service_name(name_of(L, e, z[2][1], k), AN(f, len(f.args) - 1)), "the task of a service does not have its name")
            if want:
                ob("own-arguments", arg_value(t, L, e, z[2][2], k, A(f, 1)) and arg_value(t, L, e, z[2][3], k, A(f, 2)), "time or repetition are not passed on")
                ob("runs-service", runs_service(c, p, f, L, e, z[2][4], k, sv), "the task does not run the service once")
    c.ob("passed-on", inst, n > 0, f.here(), "the method never comes back")


def runs_service(c, p, f, L, e, v, k, sv):
    """is it a function that runs the service?"""
    t = L.of(e)
    r = function_of(p, f, L, e, v, k)
    if r is not None:
        q, clo = r
        M2, ends, _ = ways(c, q)
        cap = {ptr(simp(y[2][0]))[1] for y in t.ev if y[0] == "STORE" and base(y[2][0]) == clo and is_arg(strip(y[2][1]), sv)}
        ok = False
        for x in ends:
            u = M2.of(x)
            ro = calls(u, r"Service::runOnce$")
            if x.kind == "iter" and ro:
                return False
            if x.kind == "ret":
                ok = len(ro) == 1 and any(y[0] == "LD" and y[3] is not None and strip(y[3]) == strip(ro[0][2][0]) and ptr(simp(y[2][0]))[:2] in {(THIS, o) for o in cap} for y in u.ev)
                if not ok:
                    return False
        return ok
    # a member function bound to the service
    for _ in range(6):
        v, k = t.origin(v, k)
        y = next((y for y in reversed(t.ev[:k]) if y[0] in ("f.ctor", "f.assign") and len(y[2]) > 1 and ptr(simp(y[2][0])) == ptr(simp(v))), None)
        if y is None:
            break
        v, k = y[2][1], t.at(y)
    b = base(v)
    st = [y for y in t.ev if y[0] == "STORE" and base(y[2][0]) == b]
    fn = [y for y in st if y[2][1][0] == "k" and "Service::runOnce(" in str(y[2][1][1])]
    return len(fn) == 1 and any(is_arg(strip(y[2][1]), sv) for y in st)


def made_of(p, f, L, e, v, k):
    """(body, closure) of the lambda that a function object is a copy of, also when the closure begins with a function of its own"""
    t = L.of(e)
    for _ in range(6):
        y = next((y for y in reversed(t.ev[:k]) if y[0] in ("f.ctor", "f.assign") and len(y[2]) > 1 and ptr(simp(y[2][0])) == ptr(simp(v))), None)
        if y is None:
            return function_of(p, f, L, e, v, k)
        q = lambda_of(p, f, t, y)
        if q is not None:
            return q, base(y[2][1])
        v, k = y[2][1], t.at(y)
    return None


def lin(v, depth=40):
    """value as a sum of atoms with rational factors; None if it is something else.  Widths and rounding are left out."""
    v = strip(simp(v))
    if depth < 0:
        return None
    if v[0] == "c":
        return {1: Fraction(v[1])} if v[1] else {}
    if v[0] == "cast" and v[1] in ("trunc", "sext", "zext", "freeze"):
        return lin(v[3], depth - 1)
    if v[0] == "ext" and v[2] == 0:
        return lin(v[1], depth - 1)
    if v[0] == "op" and v[1] in ("add", "sub"):
        a, b = lin(v[3], depth - 1), lin(v[4], depth - 1)
        if a is None or b is None:
            return None
        return plus(a, b, 1 if v[1] == "add" else -1)
    if v[0] == "op" and v[1] in ("mul", "sdiv") and v[4][0] == "c" and v[4][1]:
        a = lin(v[3], depth - 1)
        return None if a is None else {k: x * v[4][1] if v[1] == "mul" else x / v[4][1] for k, x in a.items()}
    return {v: Fraction(1)}


def plus(a, b, s=1):
    r = dict(a)
    for k, x in b.items():
        r[k] = r.get(k, 0) + s * x
    return {k: x for k, x in r.items() if x}


def body(c, p, q, M):
    """what the thread of a task runs"""
    L, ends, _ = ways(c, q)
    inst = "task thread"
    is_ = lambda nm, what: re.search(r"(^this\.|->)" + re.escape(M[what][0]) + r"(\.|$)", str(nm)) is not None
    def runs(t):
        return [z for z in t.ev if z[0] == "f.call" and is_(z[1], "task")]
    def repeat(t):
        for z in t.ev:
            if z[0] == "LD" and is_(z[1], "repeat"):
                return truthy(t.m, t.st, z[3])
        return None
    def flag(t, evs):
        return [z for z in evs if z[0] in ("LD", "RMW") and is_(z[1], "flag")]
    def classify(t, f, lo=0):
        """clock readings of this turn: B before the task runs, E after it"""
        k = t.at(f)
        return {simp(z[3]): ("E" if t.at(z) > k else "S") for z in t.mine if z[0] == "CALL" and re.search(NOW, z[1]) and z[3] is not None}
    # what the values that go on to the next turn stand for
    carry, bad = {}, False
    its = [e for e in ends if e.kind == "iter"]
    for e in its:
        t = L.of(e)
        f = [z for z in t.mine if z in runs(t)]
        if len(f) != 1:
            continue
        cl = classify(t, f[0])
        for i, (old, new) in e.phis.items():
            if new is None:
                continue
            x = lin(new)
            x = None if x is None else frozenset((cl.get(a, a), n) for a, n in x.items())
            if carry.setdefault((e.header, i), x) != x:
                carry[(e.header, i)] = None
    after = lambda v: v[0] == "ld" and v[2] == M["after"][1] and v[1] != THIS or v[0] == "ld" and v[1] == THIS and v[2] == M["after"][1]

    def meaning(e, v):
        """the value in terms of the period (P), the last start (S) and the last end (E) of the task"""
        x = lin(v)
        if x is None:
            return None
        hv = {simp(old): (e.header, i) for i, (old, new) in e.phis.items() if old is not None and old[0] == "hv"}
        r = {}
        for a, n in x.items():
            if a in hv:
                y = carry.get(hv[a])
                if y is None:
                    return None
                for b, m in y:
                    r = plus(r, {b: m * n})
            elif a != 1 and after(a):
                r = plus(r, {"P": n})
            else:
                r = plus(r, {a: n})
        return r

    def amount(t, e, z):
        v = strip(z[2][0])
        y = next((y for y in reversed(t.ev[:t.at(z)]) if y[0] == "STORE" and ptr(simp(y[2][0])) == ptr(v)), None)
        d = re.search(r"ratio<(\d+)l*, *(\d+)l*>", t.fn.insts[z[4]].get("dem") or "")
        if y is None or d is None:
            return None, None
        return y[2][1], Fraction(int(d.group(1)), int(d.group(2))) * 10 ** 6

    def right(e, v, unit, lo=False):
        m = meaning(e, v)
        if m is None:
            return False
        m = {k: x * unit for k, x in m.items()}
        if m.get("P") != 1:
            return False
        s, en = m.get("S", 0), m.get("E", 0)
        rest = {k: x for k, x in m.items() if k not in ("P", "S", "E")}
        if s:
            later.append(e)
        return not rest and s == -en and s in ([Fraction(1, 1000)] if any(old is not None and old[0] == "hv" for old, _ in e.phis.values()) else (0, Fraction(1, 1000)))

    n1, n2, later = 0, 0, []
    for e in ends:
        t, w = L.of(e), where(q, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        ob("only-own-task", not [z for z in t.ev if z[0] == "f.call" and z not in runs(t)], "something else than the task is run")
        ob("stopped-from-outside", not [z for z in t.ev if z[0] in ("STORE", "RMW") and is_(z[1], "flag") and not (z[0] == "STORE" and strip(z[2][1]) == ("c", 0) and repeat(t) is False)], "the thread changes whether it is running: a stop may be lost")
        rp = repeat(t)
        sl = [z for z in t.mine if z[0] == "CALL" and re.search(r"this_thread::sleep_(for|until)$", z[1])]
        f = [z for z in t.mine if z in runs(t)]
        if e.kind == "iter":
            n1 += 1
            if not f:
                ob("runs-each-turn", rp is not True or bool(sl), "a turn neither waits nor runs the task")
                continue
            ob("runs-each-turn", rp is True and len(f) == 1, "the task does not run exactly once in a turn, or a task that is not repeated runs in a loop")
            fl = [z for z in flag(t, t.mine) if t.at(z) < t.at(f[0])]
            ob("ends-when-stopped", bool(fl) and truthy(t.m, t.st, fl[-1][3]) is True, "the task is run again without asking whether it was stopped")
            sl = [z for z in sl if t.at(z) < t.at(f[0])]
            ob("waits", len(sl) <= 1 and len(sl) == len([z for z in t.mine if z[0] == "CALL" and re.search(r"sleep|wait", z[1])]), "the task waits more than once in a turn")
            if sl:
                v, unit = amount(t, e, sl[0])
                ob("waits", v is not None and right(e, v, unit), "the task does not wait for its time less the time its last run took")
            else:
                ok = False
                for k, d in t.st.facts.items():
                    if isinstance(k, tuple) and len(k) == 4 and k[0] == "cmp" and k[1] in ("slt", "sle", "sgt", "sge"):
                        lo, hi = (k[2], k[3]) if k[1] in ("slt", "sle") else (k[3], k[2])
                        if strip(lo) == ("c", 0) and d is False and right(e, hi, Fraction(1)) or strip(hi) in (("c", 1), ("c", 0)) and d is True and right(e, lo, Fraction(1)):
                            ok = True
                ob("waits", ok, "the task runs again without waiting although its time is not over")
            continue
        if e.kind != "ret":
            continue
        if rp is True:
            fl = flag(t, t.ev)
            ob("ends-when-stopped", bool(fl) and truthy(t.m, t.st, fl[-1][3]) is False, "a repeated task ends although it was not stopped")
            ob("runs-each-turn", not f, "the task runs once more after it was stopped")
            continue
        ob("once", rp is False, "it is not known whether the task is to be repeated")
        fl = flag(t, t.ev)
        if not f:
            ob("once", bool(fl) and truthy(t.m, t.st, fl[-1][3]) is False, "a task that was not stopped is not run")
            continue
        n2 += 1
        ob("once", len(f) == 1 and bool(fl) and truthy(t.m, t.st, fl[0][3]) is True, "a task that is not repeated does not run exactly once, or runs after it was stopped")
        ob("waits", len(sl) == 1 and t.at(sl[0]) < t.at(f[0]), "the task does not wait for its time first")
        for z in sl[:1]:
            v, unit = amount(t, e, z)
            x = lin(v) if v is not None else None
            ob("waits", x is not None and len(x) == 1 and all(a != 1 and after(a) and m * unit == 1 for a, m in x.items()), "the task does not wait for its time first")
    c.ob("runs-each-turn", inst, n1 > 0, q.here(), "there is no loop for repeated tasks")
    c.ob("waits", inst, bool(later), q.here(), "the time the last run took is not taken off the wait")
    c.ob("once", inst, n2 > 0, q.here(), "tasks that are not repeated never run")


def thread_class(c, p):
    M = mems(c, p, S, {"after": r"int$", "repeat": r"bool$", "flag": r"atomic(<bool>|_bool)", "thread": r"thread$", "task": r"function<"})
    N = {k: "this." + v[0] for k, v in M.items()}
    f = only(c, p, S + "::ScheduledThread")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        st = lambda m: [z for z in t.ev if z[0] == "STORE" and str(z[1]).startswith(m)]
        for m, a, msg in (("after", 2, "time"), ("repeat", 3, "repetition")):
            s = st(N[m])
            c.ob("own-arguments", "ScheduledThread", bool(s) and arg_value(t, L, e, s[-1][2][1], t.at(s[-1]), A(f, a)), w, "the %s of the task is not kept" % msg)
        fc = [z for z in t.ev if z[0] in ("f.ctor", "f.assign", "f.swap") and t.name(z[2][0]).lstrip("&") == N["task"]]
        c.ob("own-arguments", "ScheduledThread", bool(fc) and task_given(L, e, fc[-1][2][0] if fc[-1][0] == "f.swap" else fc[-1][2][1], t.at(fc[-1]), A(f, 4)), w, "the task is not kept")
        c.ob("idle-first", "ScheduledThread", not threads(t), w, "the thread runs before the task is kept and started")
    bodies = {}
    f = only(c, p, S + "::start")
    L, ends, _ = ways(c, f)
    n = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, "ScheduledThread::start", ok, w, msg)
        th = threads(t)
        if e.kind == "iter":
            ob("one-thread", not [z for z in t.mine if z in th], "threads are started in a loop")
        if e.kind != "ret":
            continue
        n += 1
        ob("one-thread", len(th) == 1 and th[0][1].endswith("thread::thread"), "not exactly one thread is started")
        for z in th[:1]:
            k = t.at(z)
            fl = [y for y in t.ev if y[0] == "STORE" and str(y[1]).startswith(N["flag"]) or y[0] == "RMW" and str(y[1]).startswith(N["flag"])]
            ob("flag-first", bool(fl) and fl[-1][0] == "STORE" and strip(fl[-1][2][1]) == ("c", 1) and t.at(fl[-1]) < k, "the thread may start before it counts as running: the task is never run, or a stop is undone")
            kept = t.name(z[2][0]).lstrip("&") == N["thread"] or any(y[0] == "CALL" and y[1].endswith(("thread::operator=", "thread::swap", "std::swap")) and (t.name(y[2][0]).lstrip("&") == N["thread"] and base(y[2][1]) == base(z[2][0]) or t.name(y[2][1]).lstrip("&") == N["thread"] and base(y[2][0]) == base(z[2][0])) for y in t.ev[k:] if len(y[2]) > 1)
            ob("thread-kept", kept, "the thread is not kept: it cannot be joined")
            r = function_of(p, f, L, e, z[2][1], k)
            q = r[0] if r else lambda_of(p, f, t, z)
            clo = r[1] if r else base(t.origin(z[2][1], k)[0])
            if q is None:
                v = [y[2][1] for y in t.ev if y[0] == "STORE" and base(y[2][0]) == base(z[2][1])] + [z[2][1]]
                nm = next((g.group(1) for g in (re.search(r"'f': '(\w+)'", str(x)) for x in v) if g), None)
                q = next((x for x in p.fns.values() if x.name == nm), None) if nm else None
                ob("own-body", q is not None and any(is_arg(strip(y[2][1]), THIS) or is_arg(strip(a), THIS) for a in z[2] for y in t.ev[:k] if y[0] == "STORE"), "the thread runs something else")
            else:
                ob("own-body", any(y[0] == "STORE" and base(y[2][0]) == clo and strip(y[2][1]) == THIS for y in t.ev), "the thread runs the task of another object")
            if q is not None:
                bodies[q.sq + q.dem] = q
    c.ob("one-thread", "ScheduledThread::start", n > 0, f.here(), "start never comes back")
    c.need(bodies, "what the thread of a task runs is not known")
    for q in bodies.values():
        body(c, p, q, M)
    for name in ("stop", "~ScheduledThread"):
        fs = [f for f in p.fns.values() if f.sq == S + "::" + name]
        c.ob("joined", name, bool(fs), "", "a thread that ends is not stopped: the program ends")
        for f in fs:
            L, ends, _ = ways(c, f)
            for e in ends:
                t, w = L.of(e), where(f, e)
                if e.kind == "iter":
                    c.ob("joined", name, not calls(t, r"thread::(join|detach)$"), w, "the thread is joined in a loop")
                if e.kind != "ret":
                    continue
                if name[0] == "~" and calls(t, re.escape(S) + "::stop$"):
                    c.ob("joined", name, calls(t, re.escape(S) + "::stop$")[0][2][0] == THIS, w, "another thread is stopped")
                    continue
                fl = [y for y in t.ev if y[0] == "STORE" and str(y[1]).startswith(N["flag"]) or y[0] == "RMW" and str(y[1]).startswith(N["flag"])]
                jn, ja = calls(t, r"^std::thread::join$"), calls(t, r"^std::thread::joinable$")
                own = lambda z: t.name(z[2][0]).lstrip("&") == N["thread"]
                c.ob("told-to-stop", name, bool(fl) and strip(fl[-1][2][1]) == ("c", 0) and all(t.at(fl[-1]) < t.at(z) for z in jn), w, "the thread is joined without being told to stop: it never ends")
                c.ob("joined", name, len(jn) == 1 and own(jn[0]) or not jn and bool(ja) and own(ja[-1]) and known(t, ja[-1][3], False), w, "the thread may still run the task afterwards")
                c.ob("joined", name, not calls(t, r"thread::detach$"), w, "the thread is left to itself")


@prop("T01", "path-sensitive typestate of the task threads (start, wait, run, stop, join), symbolic form of the waiting time, map of tasks by name",
      "All paths of the basic scheduler and its task threads for any name, time, repetition and task; two turns of the loop are taken apart, later ones by induction on the values carried over. Rounding and overflow of times, a task that stops itself, and calls from several threads at once are left out.")
def t01(c):
    p = c.program(BASIC, [r"^kpsr::mem::BasicScheduler::.*"], keep=[r"^kpsr::mem::BasicScheduler::ScheduledThread::(ScheduledThread|~ScheduledThread|start|stop)\(", r"^kpsr::mem::BasicScheduler::(start|stop)Scheduled(Task|Service)\("], libkeep=KEEP)
    M = mems(c, p, B, {"map": r"(unordered_)?map<"})
    start_task(c, p, only(c, p, B + "::startScheduledTask"), M)
    stop_task(c, p, only(c, p, B + "::stopScheduledTask"), M)
    service(c, p, only(c, p, B + "::startScheduledService"), "startScheduledService", r"::startScheduledTask$", True)
    service(c, p, only(c, p, B + "::stopScheduledService"), "stopScheduledService", r"::stopScheduledTask$", False)
    thread_class(c, p)


# ------------------------------------------------------------------ T02
@prop("T02", "path-sensitive analysis of the scheduler of the event loop: what is passed on to the timer, what the timer publishes",
      "All paths of the event loop's scheduler for any task, service, name, time and repetition; the timer is T01's, the publisher H01's subject.")
def t02(c):
    E = "kpsr::high_performance::EventLoopScheduler"
    p = c.program(LOOP, [r"^kpsr::high_performance::EventLoopScheduler::.*"], keep=[r"^kpsr::mem::BasicScheduler::.*", r"^kpsr::high_performance::EventLoopScheduler::(start|stop)Scheduled(Task|Service)\("], libkeep=KEEP)
    M = mems(c, p, E, {"timer": r"(kpsr::mem::)?BasicScheduler$", "pub": r"\*.*Publisher<"})
    own = (THIS, M["timer"][1])
    f = only(c, p, E + "::EventLoopScheduler")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind == "ret":
            t = L.of(e)
            st = [z for z in t.ev if z[0] == "STORE" and z[1] == "this." + M["pub"][0]]
            c.ob("own-publisher", "EventLoopScheduler", bool(st) and is_arg(st[-1][2][1], A(f, 1)), where(f, e), "tasks are published through another publisher")
    f = only(c, p, E + "::startScheduledTask")
    L, ends, _ = ways(c, f)
    n = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, "startScheduledTask", ok, w, msg)
        cs = calls(t, r"BasicScheduler::startScheduledTask$")
        if e.kind == "iter":
            ob("passed-on", not cs, "tasks are started in a loop")
        if e.kind != "ret":
            continue
        n += 1
        ob("passed-on", len(cs) == 1 and ptr(simp(cs[0][2][0]))[:2] == own, "the task is not passed on to the timer exactly once")
        ob("not-run-here", not calls(t, r"Publisher(<.*>)?::publish") and not [z for z in t.ev if z[0] == "f.call"], "the task is run or published at once, outside its time")
        for z in cs[:1]:
            k = t.at(z)
            ob("own-arguments", L.text(e, z[2][1], k) == (("ld", AN(f, 1)),) and arg_value(t, L, e, z[2][2], k, A(f, 2)) and arg_value(t, L, e, z[2][3], k, A(f, 3)), "name, time or repetition are not passed on")
            r = made_of(p, f, L, e, z[2][4], k)
            ob("published", r is not None, "the timer does not publish the task: it runs outside the event loop")
            if r is None:
                continue
            q, clo = r
            caps = {ptr(simp(y[2][0]))[1] for y in t.ev[:k] if y[0] == "STORE" and base(y[2][0]) == clo and strip(y[2][1]) == THIS}
            pubs = {ptr(simp(y[2][0]))[1] for y in t.ev[:k] if y[0] == "STORE" and base(y[2][0]) == clo and any(x[0] == "LD" and x[1] == "this." + M["pub"][0] and x[3] is not None and strip(x[3]) == strip(y[2][1]) for x in t.ev[:t.at(y)])}
            tasks = {ptr(simp(y[2][0]))[1] for y in t.ev[:k] if y[0] == "f.ctor" and base(y[2][0]) == clo and len(y[2]) > 1 and task_given(L, e, y[2][1], t.at(y), A(f, 4))}
            ticking(c, q, M, caps, pubs, tasks)
    c.ob("passed-on", "startScheduledTask", n > 0, f.here(), "the method never comes back")
    f = only(c, p, E + "::stopScheduledTask")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind == "ret":
            t = L.of(e)
            cs = calls(t, r"BasicScheduler::stopScheduledTask$")
            c.ob("passed-on", "stopScheduledTask", len(cs) == 1 and ptr(simp(cs[0][2][0]))[:2] == own and L.text(e, cs[0][2][1], t.at(cs[0])) == (("ld", AN(f, 1)),), where(f, e), "the timer is not told to stop exactly this task")
    service(c, p, only(c, p, E + "::startScheduledService"), "startScheduledService", r"EventLoopScheduler::startScheduledTask$", True)
    service(c, p, only(c, p, E + "::stopScheduledService"), "stopScheduledService", r"(BasicScheduler::stopScheduled(Service|Task)|EventLoopScheduler::stopScheduledTask)$", False)
    for z in [z for e in ends for z in calls(L.of(e), r"BasicScheduler::")]:
        c.ob("passed-on", "own timer", ptr(simp(z[2][0]))[:2] == own, f.here(), "another timer is told")


def ticking(c, q, M, caps, pubs, tasks):
    """what the timer runs: publishes the task once"""
    L, ends, _ = ways(c, q)
    n = 0
    for e in ends:
        t, w = L.of(e), where(q, e)
        ob = lambda rule, ok, msg: c.ob(rule, "timer task", ok, w, msg)
        pb = calls(t, r"Publisher(<.*>)?::(publish|internalPublish|processAndPublish)$")
        ob("not-run-here", not [z for z in t.ev if z[0] == "f.call"], "the task is run by the timer instead of the event loop")
        if e.kind == "iter":
            ob("published", not pb, "the task is published in a loop")
        if e.kind != "ret":
            continue
        n += 1
        ob("published", len(pb) == 1 and re.search(r"Publisher(<.*>)?::publish$", pb[0][1]) is not None, "the task is not published exactly once when its time has come")
        for z in pb[:1]:
            k = t.at(z)
            nm = L.desc(e, z[2][0], k)
            via = any(y[0] == "LD" and y[3] is not None and strip(y[3]) == strip(z[2][0]) and (base(y[2][0]) == THIS and ptr(simp(y[2][0]))[1] in pubs or any(x[0] == "LD" and x[3] is not None and base(y[2][0]) == simp(x[3]) and ptr(simp(x[2][0]))[:2] in {(THIS, o) for o in caps} and ptr(simp(y[2][0]))[1] == M["pub"][1] for x in t.ev[:k])) for y in t.ev[:k])
            ob("own-publisher", via, "the task is published through another publisher")
            v, _ = t.origin(z[2][1], k)
            ob("own-task", ptr(simp(v))[:2] in {(THIS, o) for o in tasks}, "another task is published")
    c.ob("published", "timer task", n > 0, q.here(), "the task is never published")
