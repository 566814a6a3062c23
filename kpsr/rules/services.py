"""Core services: container of statistics, cache listeners, callback handlers, managed services."""
import os
import re

from ..build import REPO, VERIF
from ..cont import KEEP, Loops, cev, changes
from ..core import prop
from ..locks import replay
from ..sem import Ev, clean, cmpv, lsum, ptr, simp, truthy, walk
from ..sym import linv, mkp
from .emitters import A, AN, eev, equal, flag, held, is_arg, isnull, pre_held, strip, textof_key, valdesc, wraps
from .fsm import where

UNIT = os.path.join(VERIF, "units", "services.cpp")
CON = "core/modules/core/src/core_container.cpp"
CC = "kpsr::CoreContainer"
THIS = ("arg", "this")
NOTHROW = re.compile(r"^std::(__cxx11::|__shared|shared_ptr|vector|map|multimap|list|_|function::function|function::operator=|make_shared|make_pair|allocat|distance|get$)|^operator|^llvm|::~|spdlog|fmt|::basic_string")


def thr(x):
    return not NOTHROW.search(x.callee or "")


def sev():
    """like eev, with read-modify-write operations ("RMW", path, (address, value), old value, …, kind)"""
    base = eev()

    def ev(m, x, st, vals, res):
        if x.op in ("atomicrmw", "cmpxchg"):
            return Ev(("RMW", clean(m.path(st, vals[0])[0]), tuple(simp(v) for v in vals), res, x.i, x.get("rmw")))
        return base(m, x, st, vals, res)
    ev.again = base.again
    return ev


def ways(c, f, **kw):
    c.analysed(f)
    ends, m = walk(f, sev(), throws=thr, sticky=changes(None), **kw)
    ends = [e for e in ends if e.kind != "stop" and not (e.x is not None and e.x.op == "unreachable")]
    c.count("paths", len(ends))
    return Loops(ends, f), ends, m


def left(e):
    return e.kind in ("ret", "throw", "exc")


def flow(c, inst, f, e, w):
    """locks are taken and given back properly; -> [(event, held)]"""
    pr = []
    rp, hold = replay(e, pr)
    for b in pr:
        if b[1] != "nested":
            c.ob("lock-discipline", inst, False, w, b[1])
    if e.kind == "iter":
        c.ob("loop-keeps-lock", inst, sorted(hold) == sorted(pre_held(e)), w, "a turn of a loop changes what is locked")
    elif left(e):
        c.ob("released-on-exit", inst, not hold, w, "%s is still locked on the way out" % ", ".join(hold))
    return rp, pr


def last_is(L, e, v, k, want):
    """is the value the given argument (also through a copy of it on the stack)?"""
    return is_arg(v, want) or strip(v) == want


# ------------------------------------------------------------------ container
def conprog(c):
    return c.program(REPO + "/" + CON, [r".*CoreContainer::.*"], libkeep=KEEP)


def lists(c, p):
    t = [t for t in p.types if t.get("q") == CC and t.get("mem")]
    c.need(t, "%s is gone" % CC)
    r = {}
    for x in t[0]["mem"]:
        n = p.types[p.strip(x["ty"])].get("name") or ""
        if re.match(r"(vector|list|deque|set|unordered_set)<", n):
            r["this." + x["name"]] = n
    c.need(len(r) >= 4, "the lists of the container are gone")
    return r


def confns(p, name):
    return [f for f in p.fns.values() if f.sq == CC + "::" + name]


def klass(f):
    """class of what is attached or detached"""
    g = re.search(r"\((?:kpsr::)?(\w+)\*\)", f.dem)
    return g.group(1) if g else "?"


def touched(L, e, y, ls):
    """list of the container the event uses"""
    t = L.of(e)
    if not y[2] or y[0] in ("LOCK", "UNLOCK", "TRY", "WAIT", "NOTIFY", "LOOP"):
        return None
    for q in y[2]:
        if q[0] in ("c", "cmp", "op", "cast"):
            continue
        n = t.name(q).lstrip("&")
        for l in ls:
            if n == l or n.startswith((l + ".", l + "[")):
                return l
    return None


@prop("S01", "path-sensitive lock replay over the container of statistics",
      "Every access to the lists of attached services and statistics on every path of every method, exception paths included; std::mutex is trusted.")
def s01(c):
    p = conprog(c)
    ls = lists(c, p)
    guards, acc, order = {}, [], {}
    for f in p.fns.values():
        short = f.sq.rsplit("::", 1)[1]
        if not f.sq.startswith(CC + "::") or f.sq.count("::") > 2 or short in ("CoreContainer", "~CoreContainer"):
            continue
        inst = short + "(" + (klass(f) if klass(f) != "?" else "") + ")"
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            rp, pr = flow(c, inst, f, e, w)
            for b in pr:
                if b[1] == "nested":
                    for h in b[2]:
                        order.setdefault((h, b[0][1]), w)
            for y, h in rp:
                l = touched(L, e, y, ls)
                if l:
                    acc.append((inst, w, l, h))
                    guards[l] = guards[l] & h if l in guards else h
    for inst, w, l, h in acc:
        best = guards[l]
        if not best:
            # the mutex most accesses agree on
            cnt = {}
            for _, _, l2, h2 in acc:
                if l2 == l:
                    for q in h2:
                        cnt[q] = cnt.get(q, 0) + 1
            best = {max(cnt, key=cnt.get)} if cnt else set()
        c.ob("guarded", inst, bool(best & h) if best else False, w, "%s is used without holding the mutex the other methods use it under (%s)" % (l[5:], ", ".join(sorted(best)) or "none"))
    for l in ls:
        c.ob("accesses", CC, l in guards, "", "%s is never used" % l)
    for (a, b), w in order.items():
        c.ob("lock-order", CC, (b, a) not in order, w, "%s and %s are taken in both orders" % (a, b))


def pushes(L, e, ls):
    t = L.of(e)
    for z in t.mine:
        if z[0] in ("push", "insert", "insert-at", "push_front") and touched(L, e, z[:2] + (z[2][:1],) + z[3:], ls):
            yield L.cname(e, z), z


def cell(L, e, v, k):
    """value of an argument passed by reference"""
    h = held(L, e, v, k)
    return simp(h) if h is not None else None


@prop("S02", "path-sensitive analysis of attaching, detaching, starting and stopping",
      "All paths of attach, detach, start and stop of the container for any lists and arguments; two entries of the same name are interchangeable for detach.")
def s02(c):
    p = conprog(c)
    ls = lists(c, p)
    run = "this._running"
    off = {}
    where_to = {}
    for f in confns(p, "attach"):
        k = klass(f)
        inst = "attach(%s)" % k
        L, ends, m = ways(c, f)
        a = A(f, 1)
        n = 0
        for e in ends:
            t, w = L.of(e), where(f, e)
            if e.kind == "iter":
                continue
            if e.kind != "ret":
                continue
            ps = list(pushes(L, e, ls))
            st = [z for z in t.mine if z[0] == "CALL" and z[1].endswith("::start")]
            other = [z for z in t.mine if touched(L, e, z, ls) and z[0] in ("erase", "clear", "assign", "swap", "pop_back", "pop", "resize")]
            c.ob("others-stay", inst, not other, w, "attaching removes something else")
            if isnull(t, a) is True:
                c.ob("null-ignored", inst, not ps and not st, w, "nothing is attached or started when nothing is given")
                continue
            c.ob("null-ignored", inst, isnull(t, a) is False, w, "what is attached is not checked")
            n += 1
            got = {}
            for l, z in ps:
                v = cell(L, e, z[2][-1], t.at(z)) or z[2][-1]
                b, o, var = ptr(simp(v))
                c.ob("attached-itself", inst, b == a and not var, w, "something else than the given object is attached to %s" % l[5:])
                c.ob("attached-once", inst, l not in got, w, "the object is attached to %s twice" % l[5:])
                got[l] = o
                off.setdefault((k, l), o)
            want = [l for l in ls if re.search(r"\b%s \*|\b%s\*" % (k, k), ls[l])]
            c.ob("attached", inst, bool(got) and set(want) <= set(got), w, "the object is not attached to its list")
            if where_to.setdefault(k, set(got)) != set(got):
                c.ob("attached", inst, False, w, "on some paths the object is attached to other lists")
            on = flag(t, L, e, run)
            if on is True:
                so = {o for o in (ptr(simp(z[2][0]))[1] for z in st if ptr(simp(z[2][0]))[0] == a)}
                statoff = {o for l, o in got.items() if l.startswith("this.") and "Stats" in ls[l]}
                c.ob("started-when-running", inst, len(st) == 1 and so == statoff, w, "the statistics are not started although the container is running")
            elif on is False:
                c.ob("started-when-running", inst, not st, w, "the statistics are started although the container is not running")
            else:
                c.ob("started-when-running", inst, False, w, "whether the container is running is not asked")
        c.ob("attaches", inst, n > 0, f.here(), "nothing is ever attached")
    for f in confns(p, "detach"):
        k = klass(f)
        inst = "detach(%s)" % k
        L, ends, m = ways(c, f)
        a = A(f, 1)
        want = {l for l in (where_to.get(k) or [l for l in ls if re.search(r"\b%s ?\*" % k, ls[l])])}
        hit = set()
        for e in ends:
            t, w = L.of(e), where(f, e)
            if e.kind == "iter":
                c.ob("one-removed", inst, not any(z[0] in ("erase", "clear") for z in t.mine), w, "entries are removed in a loop")
                continue
            if e.kind != "ret":
                continue
            if isnull(t, a) is True:
                c.ob("null-ignored", inst, not [z for z in t.mine if z[0] in ("erase", "clear")], w, "something is detached when nothing is given")
                continue
            for l in ls:
                ch = [z for z in t.ev if z[0] not in ("begin", "end", "size", "empty", "at", "front", "back", "data", "LD", "s.eq", "s.ne", "CALL", "STORE", "cbegin", "cend") and touched(L, e, z[:2] + (z[2][:1],) + z[3:], [l])]
                if l not in want:
                    c.ob("others-stay", inst, not ch, w, "detaching changes %s" % l[5:])
                    continue
                if ch:
                    ok = len(ch) == 1 and ch[0][0] == "erase" and len(ch[0][2]) == 2
                    c.ob("one-removed", inst, ok, w, "detaching changes more of %s than the entry of the given object" % l[5:])
                    if ok:
                        hit.add(l)
                        c.ob("own-entry", inst, own_entry(L, e, ch[0], l, a, off.get((k, l), 0)), w, "the entry removed from %s is not known to be that of the given object" % l[5:])
                else:
                    c.ob("kept-only-if-missing", inst, any(C.cont == l and L.entered(e, C) and L.finished(e, C) and C.whole for C in L.cur.values()) or empty_run(L, e, l), w, "an object is not removed from %s although it may be attached" % l[5:])
        c.ob("detaches", inst, hit == want, f.here(), "an object is never removed from %s" % ", ".join(sorted(x[5:] for x in want - hit)))
    for name in ("start", "stop"):
        fs = confns(p, name)
        c.need(fs, "%s::%s is gone" % (CC, name))
        f = fs[0]
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            cs = [z for z in t.mine if z[0] == "CALL" and z[1].endswith(("::start", "::stop"))]
            for z in cs:
                c.ob("same-for-all", name, z[1].endswith("::" + name), w, "%s is called" % z[1])
            if e.kind == "iter":
                C = next((C for C in L.cur.values() if C.header == e.header and C.cont in ls), None)
                if C is None:
                    c.ob("whole-list", name, not cs, w, "statistics are reached in a way that is not understood")
                    continue
                els = [L.desc(e, z[2][0], t.at(z)) for z in cs]
                c.ob("each-once", name, len(cs) == 1 and els[0].startswith(C.cont + "[*]"), w, "the current statistics of %s are not told exactly once" % C.cont[5:])
                c.ob("whole-list", name, C.whole, w, "not all of %s" % C.cont[5:])
            elif e.kind == "ret":
                st = [z for z in t.ev if z[0] in ("STORE", "RMW") and z[1] == run]
                c.ob("remembers", name, bool(st) and truthy(t.m, t.st, strip(st[-1][2][1])) is (name == "start"), w, "the container does not know that it is %s" % ("running" if name == "start" else "stopped"))
                for l in {l for v in where_to.values() for l in v if "Stats" in ls[l]}:
                    c.ob("all-told", name, any(C.cont == l and L.entered(e, C) and L.finished(e, C) for C in L.cur.values()) or empty_run(L, e, l), w, "%s are not told" % l[5:])


def empty_run(L, e, l):
    from ..cont import isempty
    return isempty(L, e, l) is True


def own_entry(L, e, z, l, a, d):
    """does the position removed hold the object a (+d) or one with the same name?"""
    t = L.of(e)
    k = t.at(z)
    if not L.desc(e, z[2][1], k) == l + "[*]":
        return False
    cur = None
    for y in t.ev[:k]:
        if y[0] in ("s.eq", "s.ne") and truthy(t.m, t.st, y[3]) is (y[0] == "s.eq"):
            i = t.at(y)
            for u, v in ((y[2][0], y[2][1]), (y[2][1], y[2][0])):
                bu, ou, _ = ptr(simp(u))
                bv, ov, _ = ptr(simp(v))
                if bv == a and L.desc(e, mkp(bu, 0, ()), i).startswith(l + "[*]") and ov - ou == d and bu[0] == "ld" and ptr(simp(z[2][1]))[0] == bu[1]:
                    return True
        if y[0] == "LD" and L.desc(e, y[2][0], t.at(y)) == l + "[*]" and ptr(simp(y[2][0])) == ptr(simp(z[2][1])) and equal(t, y[3], mkp(a, d, ()) if d else a):
            return True
    return False


# ------------------------------------------------------- what a function object calls
def bound(p, f, L, e, v, k, cls):
    """what the function object v calls: ("member", name, its object) for a bound member function of class cls,
    ("lambda", functions) for a function object written in f, None if not understood"""
    t = L.of(e)
    o, i = t.origin(v, k)
    b, off, _ = ptr(simp(o))
    if b[0] == "al" and any(y[0] == "f.ctor" and ptr(simp(y[2][0])) == (b, off, ()) for y in t.ev[:i]):
        y = [y for y in t.ev[:i] if y[0] == "f.ctor" and ptr(simp(y[2][0])) == (b, off, ())][-1]
        if len(y[2]) < 2:
            return None
        i = t.at(y)
        b, off, _ = ptr(simp(y[2][1]))
    st = {}
    for y in t.ev[:i]:
        if y[0] == "STORE" and ptr(y[2][0])[0] == b:
            st[ptr(y[2][0])[1] - off] = y[2][1]
    m = st.get(0)
    if m is None:
        return None
    m = strip(m)
    ty = next((n for n, q in enumerate(p.types) if (q.get("q") or "") == cls or re.match(re.escape(cls) + "<.*>$", q.get("q") or "") and "(anon)" not in q["q"] and q.get("mem")), None)
    if m[0] == "c" and m[1] & 1:
        return "member", p.vmethod(ty, (m[1] - 1) // 8) if ty is not None else None, st.get(16)
    g = re.search(r"'d': '([^'(]+)\(", str(m))
    if g:
        return "member", g.group(1), st.get(16)
    ls = [q for q in p.fns.values() if q.sq == f.sq + "::(anon)::operator()"]
    return ("lambda", ls, m) if ls else None


def calls_member(c, p, f, L, e, v, k, cls, name, rule, inst, w, msg):
    """the function object v passes its argument once to the member function of this object"""
    r = bound(p, f, L, e, v, k, cls)
    ok = False
    if r and r[0] == "member":
        ok = bool(r[1]) and re.sub(r"<.*>", "", r[1]).endswith(re.sub(r"<.*>", "", cls) + "::" + name) and r[2] is not None and is_arg(r[2], THIS)
    elif r:
        ok = all(lambda_ok(c, q, name) for q in r[1])
    c.ob(rule, inst, ok, w, msg)


def lambda_ok(c, q, name):
    L, ends, m = ways(c, q)
    n = 0
    for e in ends:
        if e.kind == "iter":
            return False
        if e.kind != "ret":
            continue
        t = L.of(e)
        cs = [z for z in t.ev if z[0] == "CALL" and "::~" not in z[1] and not z[1].startswith(("operator", "std::"))]
        if len(cs) != 1 or not cs[0][1].endswith("::" + name) or not any(is_arg(a, A(q, 1)) or L.desc(e, a, t.at(cs[0])).startswith(q.argname(A(q, 1)[1]) + ".") for a in cs[0][2][1:]):
            return False
        n += 1
    return n > 0


# ------------------------------------------------------------------ cached events
CACHES = ("kpsr::mem::CacheListener", "kpsr::mem::MultiThreadCacheListener", "kpsr::mem::TestCacheListener")
CACHE = r".*kpsr::mem::(Cache|MultiThreadCache|TestCache)Listener.*"


def cacheprog(c, cls):
    p = c.program(UNIT, [CACHE], keep=[r"^unit::[A-Za-z]+::[A-Za-z]+[(]"], libkeep=KEEP, dyn=(re.escape(cls) + r"<.*>", r"^kpsr::mem::\w+::"))
    t = [t for t in p.types if re.match(re.escape(CACHES[0]) + "<.*>$", t.get("q") or "") and t.get("mem") and "(anon)" not in t["q"]]
    c.need(t, "%s is gone" % CACHES[0])
    last = [x for x in t[0]["mem"] if (p.types[p.strip(x["ty"])].get("name") or "").startswith("shared_ptr<")]
    cnt = [x for x in t[0]["mem"] if x["name"] == "counter"]
    c.need(len(last) == 1 and cnt, "the members of the cache listener are gone")
    return p, "this." + last[0]["name"], "this.counter"


def impl(c, p, classes, name):
    """the method an object of the first class runs"""
    for cls in classes:
        fs = [f for f in p.fns.values() if f.sq == cls + "::" + name]
        if fs:
            return fs[0]
    c.need(False, "%s::%s is gone" % (classes[0], name))


def store_of(L, e, name):
    """events that change the shared pointer of this name"""
    t = L.of(e)
    return [z for z in t.mine if z[0] in ("p.assign", "p.reset", "p.swap") and t.name(z[2][0]).lstrip("&") == name]


def count_of(t, name):
    """events that change the counter, with what they add (None: not an addition)"""
    o = []
    for z in t.mine:
        if z[0] == "RMW" and z[1] == name:
            v = strip(z[2][1])
            o.append((z, v[1] if z[5] == "add" and v[0] == "c" else None))
        elif z[0] == "STORE" and z[1] == name:
            o.append((z, None))
    return o


def copied_from(L, e, z, a):
    """is what is assigned a new object copied from the argument?"""
    from .emitters import made
    t = L.of(e)
    k = t.at(z)
    b = ptr(simp(z[2][1]))[0]
    if z[0] == "p.reset" and b[0] == "new":
        # a new object given to the pointer, made from the argument
        cs = [y for y in t.ev[:k] if y[0] not in ("LD", "STORE") and len(y[2]) > 1 and t.same(y[2][0], z[2][1])]
        return len(cs) == 1 and (t.is_copy(cs[0]) or cs[0][0] == "CALL" and re.search(r"::(\w+)::\1$|^(\w+)::\2$", cs[0][1])) and len(cs[0][2]) == 2 and is_arg(cs[0][2][1], a)
    mk = made(L, e, z[2][1], k)
    if mk is not None:
        return len(mk[1]) == 1 and is_arg(mk[1][0], a)
    return False


@prop("S03", "path-sensitive analysis of the cache listeners with lock replay",
      "All paths of all methods of the three cache listeners, with virtual calls resolved per class; any event.")
def s03(c):
    for cls in CACHES:
        p, last, cnt = cacheprog(c, cls)
        short = cls.rsplit("::", 1)[1]
        classes = (cls, CACHES[0])
        multi = cls == CACHES[1]
        for name in ("onEventReceived", "onEventReceivedRaw"):
            f = impl(c, p, classes, name)
            inst = short + "::" + name
            L, ends, m = ways(c, f)
            a = A(f, 1)
            n = 0
            for e in ends:
                t, w = L.of(e), where(f, e)
                rp, _ = flow(c, inst, f, e, w)
                st, ct = store_of(L, e, last), count_of(t, cnt)
                if e.kind == "iter":
                    c.ob("kept-once", inst, not st and not ct, w, "an event is kept or counted in a loop")
                    continue
                if multi:
                    for y, h in rp:
                        if y in st or y in [z for z, _ in ct] or y[0] in ("STORE", "LD") and y[1].startswith("this.totalCopyingTime"):
                            c.ob("guarded", inst, bool(h), w, "%s is changed without holding the mutex" % y[1][5:])
                if e.kind != "ret":
                    if e.kind in ("throw", "exc"):
                        c.ob("failed-not-counted", inst, not ct or bool(st), w, "an event that could not be kept is counted")
                    continue
                n += 1
                c.ob("kept-once", inst, len(st) == 1, w, "an event is not kept exactly once")
                c.ob("counted-once", inst, [d for _, d in ct] == [1], w, "an event is not counted exactly once")
                for z in st:
                    if name == "onEventReceived":
                        c.ob("event-kept", inst, copied_from(L, e, z, a), w, "what is kept is not a new copy of the event")
                    else:
                        c.ob("event-kept", inst, z[0] == "p.assign" and ptr(simp(t.origin(z[2][1], t.at(z))[0]))[0] == a, w, "what is kept is not the event")
                    for q, _ in ct:
                        c.ob("kept-before-counted", inst, t.at(z) < t.at(q), w, "an event is counted before it is kept: who sees the count still gets the event before")
                if multi and st and ct:
                    i, j = sorted((t.at(st[0]), t.at(ct[0][0])))
                    c.ob("one-critical-section", inst, not any(y[0] == "UNLOCK" for y in t.ev[i:j]), w, "the event and its number are not changed together")
                if name == "onEventReceived":
                    copying_time(c, inst, L, e, w, st)
                    if cls == CACHES[2]:
                        d = sleep_ok(t, L, e)
                        c.ob("sleeps-as-told", inst, d is None, w, d or "")
            c.ob("receives", inst, n > 0, f.here(), "events are never kept")
        f = impl(c, p, classes, "getLastReceivedEvent")
        got(c, p, f, short + "::getLastReceivedEvent", last, multi, None, cnt)
        if multi:
            f = impl(c, p, classes, "getCounterAndEvent")
            got(c, p, f, short + "::getCounterAndEvent", last, multi, "pair", cnt)
        f = impl(c, p, [cls], short)
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            t, w = L.of(e), where(f, e)
            fo = [z for z in t.ev if z[0] in ("f.ctor", "f.assign") and t.name(z[2][0]).lstrip("&") == "this.cacheListenerFunction"]
            c.ob("listener-function", short, len(fo) == 1 and len(fo[0][2]) > 1, w, "the listener function is not set")
            for z in fo[-1:]:
                # in a base class constructor the function object is written there
                g = next((q for q in p.fns.values() if q.sq == CACHES[0] + "::CacheListener"), f)
                r = bound(p, g, L, e, z[2][0], len(t.ev), CACHES[0])
                ok = bool(r) and (r[0] == "member" and (r[1] or "").endswith("::onEventReceived") and virtual_slot(L, e, z) and is_arg(r[2], THIS) or r[0] == "lambda" and all(lambda_ok(c, q, "onEventReceived") for q in r[1]))
                c.ob("listener-function", short, ok, w, "the listener function does not give the event to onEventReceived of this object")
            init = [z for z in t.ev if z[0] in ("STORE", "RMW") and z[1] == cnt]
            c.ob("starts-at-zero", short, bool(init) and strip(init[-1][2][1]) == ("c", 0), w, "the number of events does not start at 0")


def virtual_slot(L, e, z):
    """is the bound member function looked up in the object's class?"""
    t = L.of(e)
    b, off, _ = ptr(simp(z[2][1]))
    for y in reversed(t.ev[:t.at(z)]):
        if y[0] == "STORE" and ptr(y[2][0])[:2] == (b, off):
            v = strip(y[2][1])
            return v[0] == "c" and v[1] & 1 == 1
    return False


def copying_time(c, inst, L, e, w, st):
    t = L.of(e)
    tot = [z for z in t.mine if z[0] in ("STORE", "RMW") and z[1].startswith("this.totalCopyingTime")]
    c.ob("copying-time", inst, len(tot) == 1, w, "the copying time is not added up once")
    if len(tot) != 1 or len(st) != 1:
        return
    tm = [z for z in t.ev if z[0] == "CALL" and "TimeUtils::getCurrent" in z[1]]
    z = tot[0]
    new = strip(z[2][1])
    old = [y[3] for y in t.ev[:t.at(z)] if y[0] == "LD" and y[1].startswith("this.totalCopyingTime")]
    want = None
    mk = [t.at(y) for y in t.ev if y[0] == "CALL" and y[1] in ("std::make_shared", "std::allocate_shared")] or [t.at(st[0])]
    ok = False
    for b in tm:
        for q in tm:
            if t.at(b) < mk[0] < t.at(q):
                d = lsum(linv(strip(q[3])), linv(strip(b[3])), -1)
                ok = ok or any(lsum(linv(new), linv(strip(o)), -1) == d for o in (old if z[0] == "STORE" else [("c", 0)]))
    c.ob("copying-time", inst, ok, w, "the copying time does not grow by the time the copy took")


def sleep_ok(t, L, e):
    zs = [z for z in t.mine if z[0] == "CALL" and z[1].startswith("std::this_thread::sleep")]
    pos = None
    for z in t.ev:
        if z[0] == "LD" and z[1] == "this._sleepTimeMs":
            d = t.m.decide(t.st, cmpv("slt", ("c", 0), strip(z[3])))
            d = t.m.decide(t.st, cmpv("sgt", strip(z[3]), ("c", 0))) if d is None else d
            pos = d if d is not None else pos
    if pos is True and len(zs) != 1:
        return "the configured sleep does not happen once"
    if pos is False and zs:
        return "it sleeps although no sleep is configured"
    return None


def got(c, p, f, inst, last, multi, pair, cnt):
    from .emitters import result
    L, ends, m = ways(c, f)
    n = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        rp, _ = flow(c, inst, f, e, w)
        if multi:
            for y, h in rp:
                if y[0] in ("p.ctor", "p.assign") and len(y[2]) > 1 and t.name(y[2][1]).lstrip("&") == last:
                    c.ob("guarded", inst, bool(h), w, "the last event is read without holding the mutex")
                if y[0] in ("LD", "RMW") and y[1] == cnt and pair:
                    c.ob("guarded", inst, bool(h), w, "the number of events is read without holding the mutex")
        if e.kind != "ret":
            continue
        n += 1
        c.ob("unchanged", inst, not store_of(L, e, last) and not count_of(t, cnt), w, "asking for the last event changes it")
        if not pair:
            c.ob("last-event", inst, result(L, e) == last, w, "what is returned is not the last event")
        else:
            res = [z for z in t.ev if z[2] and ptr(simp(z[2][0]))[0] == ("arg", 0)]
            first = [z for z in res if z[0] == "STORE"]
            second = [z for z in res if z[0] in ("p.ctor", "p.assign")]
            lds = [z for z in t.ev if z[0] in ("LD", "RMW") and z[1] == cnt]
            rds = [z for z in t.ev if z[0] == "p.ctor" and len(z[2]) > 1 and t.name(z[2][1]).lstrip("&") == last]
            c.ob("number-and-event", inst, len(first) == 1 and any(strip(first[0][2][1]) == strip(q[3]) for q in lds) and len(second) == 1 and t.name(t.origin(second[0][2][1], t.at(second[0]))[0]).lstrip("&") == last, w, "what is returned is not the number of events and the last one")
            if lds and rds:
                i, j = sorted((t.at(lds[-1]), t.at(rds[-1])))
                c.ob("one-critical-section", inst, not any(y[0] == "UNLOCK" for y in t.ev[i:j]), w, "the number and the event are not read together: they may belong to different events")
    c.ob("returns", inst, n > 0, f.here(), "nothing is ever returned")


# ------------------------------------------------------------------ callbacks
HANDLERS = ("kpsr::CallbackHandler", "kpsr::MultiThreadCallbackHandler")
ELEMENTS = ("push", "push_front", "insert", "insert-at", "erase", "clear", "begin", "end", "at", "front", "back", "size", "empty", "find", "pop_back", "pop_front", "swap", "assign", "data")


def handler(c, cls):
    p = c.program(UNIT, [r".*kpsr::(MultiThread)?CallbackHandler<.*"], libkeep=KEEP, dyn=(re.escape(cls) + r"<.*>", r"^kpsr::(MultiThread)?CallbackHandler::"))
    t = [t for t in p.types if re.match(re.escape(HANDLERS[0]) + "<.*>$", t.get("q") or "") and t.get("mem") and "::(anon)" not in t["q"]]
    c.need(t, "%s is gone" % HANDLERS[0])
    o = {}
    for x in t[0]["mem"]:
        n = p.types[p.strip(x["ty"])].get("name") or ""
        tp = p.ptr_target(x["ty"])
        q = (p.types[tp].get("q") or "") if tp is not None else ""
        k = "list" if re.match(r"(vector|list|deque|map|unordered_map)<", n) else "corr" if n.startswith("function<") else "name" if n.startswith(("basic_string<", "string")) else "pub" if q.startswith("kpsr::Publisher<") else "sub" if q.startswith("kpsr::Subscriber<") else None
        if k:
            o.setdefault(k, "this." + x["name"])
    for k in ("list", "corr", "name", "pub", "sub"):
        c.need(k in o, "the callback handler has no member for %s" % k)
    return p, o


def guarded_list(c, inst, L, e, w, rp, o, multi):
    t = L.of(e)
    if not multi:
        return
    for y, h in rp:
        if y[0] in ELEMENTS and y[2] and L.cname(e, y) == o["list"]:
            c.ob("guarded", inst, bool(h), w, "the pending requests are used without holding the mutex")
        elif y[0] in ("f.call", "f.ctor", "f.assign", "s.ctor", "s.assign"):
            for q in y[2]:
                if q[0] not in ("c", "cmp", "op", "cast") and ptr(simp(q))[0][0] not in ("al", "arg") and L.desc(e, q, t.at(y)).startswith(o["list"] + "[*]"):
                    c.ob("guarded", inst, bool(h), w, "a pending request is used without holding the mutex")


def impossible(L, e, name, hits):
    """a way that takes the element just met for the end of the list, or one end of the unchanged list for another"""
    t = L.of(e)
    ends = [z for z in t.ev if z[0] == "end" and z[2] and L.cname(e, z) == name]
    for z in ends:
        later = [y for y in t.ev[:t.at(z)] if y[0] in ("erase", "push", "insert", "clear", "swap", "assign", "resize", "insert-at") and y[2] and L.cname(e, y) == name]
        if later:
            continue
        for h in hits:
            b, o, v = ptr(simp(h[2][1]))
            if t.at(h) < t.at(z) and t.m.decide(t.st, cmpv("eq", mkp(b, o, v), simp(z[3]))) is True:
                return True
        for y in ends:
            if y is not z and t.at(y) < t.at(z) and t.m.decide(t.st, cmpv("eq", simp(y[3]), simp(z[3]))) is False:
                return True
    return False


def record_ok(L, e, z, req, cb, ropt):
    """does the pushed element hold copies of the request and of the callback?"""
    t = L.of(e)
    k = t.at(z)
    a = [q for q in z[2][1:]]
    if len(a) >= 2 and is_arg(a[-2], req) and is_arg(a[-1], cb):
        return True
    b, off, _ = ptr(simp(a[-1]))
    txt, roff, coff = ropt
    so = t.origin(mkp(b, off + txt, ()), k)[0]
    fo = t.origin(mkp(b, off + coff, ()), k)[0]
    return ptr(simp(so))[:2] == (req, txt) and ptr(simp(fo))[:2] == (cb, 0)


@prop("S04", "path-sensitive analysis of requests and replies with virtual calls resolved per class",
      "All paths of construction, destruction, requestAndReply and onReplyReceived of both callback handlers; any list of pending requests.")
def s04(c):
    for cls in HANDLERS:
        p, o = handler(c, cls)
        multi = cls == HANDLERS[1]
        classes = (cls, HANDLERS[0])
        short = cls.rsplit("::", 1)[1]
        t = [t for t in p.types if (t.get("q") or "") == "unit::Ask" and t.get("mem")]
        c.need(t, "the request type is gone")
        txt = next(x["off"] for x in t[0]["mem"] if x["name"] == "text")
        lay = (txt, 0, t[0]["size"])
        f = impl(c, p, classes, "requestAndReply")
        inst = short + "::requestAndReply"
        L, ends, m = ways(c, f)
        req, cb = A(f, 1), A(f, 2)
        n = 0
        for e in ends:
            t, w = L.of(e), where(f, e)
            rp, _ = flow(c, inst, f, e, w)
            guarded_list(c, inst, L, e, w, rp, o, multi)
            ps = [z for z in t.mine if z[0] in ELEMENTS and z[2] and L.cname(e, z) == o["list"] and z[0] not in ("begin", "end", "size", "empty", "at", "front", "back", "find", "data")]
            pb = [z for z in t.mine if z[0] == "CALL" and z[1].endswith("::publish")]
            for y, h in rp:
                if y in pb:
                    c.ob("published-unlocked", inst, not h, w, "the request is published while %s is locked: a reply that comes at once cannot be handled" % ", ".join(h))
            if e.kind == "iter":
                c.ob("recorded-once", inst, not ps and not pb, w, "requests are recorded or published in a loop")
                continue
            if e.kind != "ret":
                continue
            n += 1
            c.ob("recorded-once", inst, len(ps) == 1 and ps[0][0] in ("push", "insert", "push_front", "insert-at"), w, "the request is not recorded exactly once")
            c.ob("published-once", inst, len(pb) == 1, w, "the request is not published exactly once")
            for z in ps[:1]:
                c.ob("recorded-request", inst, record_ok(L, e, z, req, cb, lay), w, "what is recorded is not the request with its callback")
                c.ob("recorded-in-order", inst, z[0] == "push", w, "the request is not recorded behind the earlier ones")
            for z in pb:
                c.ob("published-request", inst, L.desc(e, z[2][0], t.at(z)).startswith(o["pub"] + "->") and len(z[2]) > 1 and is_arg(z[2][1], req), w, "what is published is not the request, or it goes elsewhere")
                for q in ps:
                    c.ob("recorded-before-published", inst, t.at(q) < t.at(z), w, "the request is published before it is recorded: an early reply finds nothing")
        c.ob("requests", inst, n > 0, f.here(), "nothing is ever requested")

        f = impl(c, p, classes, "onReplyReceived")
        inst = short + "::onReplyReceived"
        L, ends, m = ways(c, f)
        rep = A(f, 1)
        hits = 0
        el = o["list"] + "[*]"
        for e in ends:
            t, w = L.of(e), where(f, e)
            rp, _ = flow(c, inst, f, e, w)
            guarded_list(c, inst, L, e, w, rp, o, multi)
            cor = [z for z in t.ev if z[0] == "f.call" and L.desc(e, z[2][0], t.at(z)) == o["corr"]]
            cbs = [z for z in t.ev if z[0] == "f.call" and z not in cor]
            if e.kind == "ret" and impossible(L, e, o["list"], [z for z in cor if truthy(t.m, t.st, z[3]) is True]):
                continue
            ers = [z for z in t.ev if z[0] in ("erase", "clear", "pop_back", "pop_front", "swap", "assign", "push", "insert") and z[2] and L.cname(e, z) == o["list"]]
            for y, h in rp:
                if y in cbs:
                    c.ob("called-unlocked", inst, not h, w, "a callback is called while %s is locked: it cannot send a request" % ", ".join(h))
            for z in cor:
                ok = len(z[2]) == 3 and is_arg(z[2][2], rep)
                d = L.desc(e, z[2][1], t.at(z)) if len(z[2]) == 3 else ""
                c.ob("correlated", inst, ok and d.startswith(el), w, "something else than a pending request and the reply is correlated")
            yes = [z for z in cor if truthy(t.m, t.st, z[3]) is True]
            if e.kind == "iter":
                if any(z in t.mine for z in cor):
                    C = next((C for C in L.cur.values() if C.header == e.header and C.cont == o["list"]), None)
                    c.ob("oldest-first", inst, C is not None and C.whole, w, "the pending requests are not looked through from the first to the last")
                    c.ob("first-match-ends", inst, not yes and not [z for z in cbs + ers if z in t.mine], w, "the search goes on after a match: a reply answers several requests")
                else:
                    c.ob("first-match-ends", inst, not [z for z in cbs + ers if z in t.mine], w, "callbacks are called in another loop")
                continue
            if e.kind != "ret":
                if cbs:
                    c.ob("answered-once", inst, len(ers) == 1 and t.at(ers[0]) < t.at(cbs[0]), w, "a request whose callback throws stays and is answered again")
                continue
            if not yes:
                c.ob("unknown-reply-ignored", inst, not cbs and not ers, w, "a reply to no pending request calls a callback or drops a request")
                c.ob("all-looked-at", inst, any(C.cont == o["list"] and L.entered(e, C) and L.finished(e, C) and C.whole for C in L.cur.values()) or empty_run(L, e, o["list"]), w, "the search ends before all pending requests were looked at")
                continue
            hits += 1
            c.ob("called-once", inst, len(cbs) == 1, w, "the callback of a request is called %d times for its reply" % len(cbs))
            c.ob("answered-once", inst, len(ers) == 1 and ers[0][0] == "erase" and len(ers[0][2]) == 2, w, "an answered request is not dropped exactly once")
            for z in ers[:1]:
                if z[0] == "erase" and len(z[2]) == 2:
                    b = ptr(simp(z[2][1]))[0]
                    c.ob("dropped-itself", inst, L.desc(e, z[2][1], t.at(z)).startswith(el) and any(ptr(simp(q[2][1]))[0] == b for q in yes if t.at(q) < t.at(z)) or copied_element(L, e, z, yes) or by_index(L, e, z, yes), w, "the request dropped is not the one the reply matches")
            for z in cbs[:1]:
                so, i = t.origin(z[2][0], t.at(z))
                ok = L.desc(e, z[2][0], t.at(z)) == el + ".second" and any(ptr(simp(q[2][1]))[0] == ptr(simp(so))[0] for q in yes)
                c.ob("called-own", inst, ok or L.desc(e, z[2][0], t.at(z)) == el + ".second" and copied_element(L, e, None, yes), w, "the callback called is not that of the request the reply matches")
                c.ob("reply-passed", inst, len(z[2]) == 2 and is_arg(z[2][1], rep), w, "the callback gets something else than the reply")
                if ers:
                    c.ob("dropped-before-called", inst, t.at(ers[0]) < t.at(z), w, "the request is dropped after its callback ran: a request the callback sends moves the pending ones")
                    c.ob("callback-kept-alive", inst, ptr(simp(z[2][0]))[0][0] == "al", w, "the callback is called where its request was already dropped")
        c.ob("answers", inst, hits > 0, f.here(), "no callback is ever called")

        f = impl(c, p, [cls], short)
        L, ends, m = ways(c, f)
        base = next((q for q in p.fns.values() if q.sq == HANDLERS[0] + "::CallbackHandler"), f)
        for e in ends:
            if e.kind != "ret":
                continue
            t, w = L.of(e), where(f, e)
            rg = [z for z in t.ev if z[0] == "CALL" and z[1].split("::")[-1].startswith("registerListener")]
            c.ob("listens", short, len(rg) == 1 and rg[0][1].endswith("::registerListener"), w, "the handler does not listen to replies exactly once")
            for z in rg[:1]:
                c.ob("listens-to-replies", short, is_arg(z[2][0], A(f, 3)) and len(z[2]) == 3 and textof_key(L, e, z[2][1], t.at(z)) == AN(f, 1), w, "the handler listens elsewhere or under another name")
                r = bound(p, base, L, e, z[2][2], t.at(z), HANDLERS[0]) if len(z[2]) == 3 else None
                ok = bool(r) and (r[0] == "member" and (r[1] or "").endswith("::onReplyReceived") and is_arg(r[2], THIS) or r[0] == "lambda" and all(lambda_ok(c, q, "onReplyReceived") for q in r[1]))
                c.ob("listens-with-handler", short, ok, w, "replies do not come to onReplyReceived of this handler")
            for k, a, msg in (("corr", 4, "correlation function"), ("name", 1, "name")):
                zs = [z for z in t.ev if z[0] in ("f.ctor", "f.assign", "s.ctor", "s.assign") and t.name(z[2][0]).lstrip("&") == o[k] and len(z[2]) > 1]
                c.ob("remembers-" + k, short, bool(zs) and L.desc(e, zs[-1][2][1], t.at(zs[-1])) == AN(f, a), w, "the handler does not keep its %s" % msg)
            for k, a in (("pub", 2), ("sub", 3)):
                zs = [z for z in t.ev if z[0] == "STORE" and z[1] == o[k]]
                c.ob("remembers-" + k, short, bool(zs) and is_arg(zs[-1][2][1], A(f, a)), w, "the handler does not keep its %s" % ("publisher" if k == "pub" else "subscriber"))
        ds = [q for q in p.fns.values() if q.sq == cls + "::~" + short]
        c.need(ds, "the destructor of %s is gone" % short)
        for f in ds:
            L, ends, m = ways(c, f)
            for e in ends:
                if e.kind != "ret":
                    continue
                t, w = L.of(e), where(f, e)
                rm = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("::removeListener")]
                c.ob("stops-listening", short, len(rm) == 1 and len(rm[0][2]) == 2 and L.desc(e, rm[0][2][0], t.at(rm[0])).startswith(o["sub"] + "->") and textof_key(L, e, rm[0][2][1], t.at(rm[0])) == o["name"], w, "a destroyed handler still listens to replies")


def by_index(L, e, z, yes):
    """is begin() plus the index of the element that matched erased?"""
    t = L.of(e)
    b, off, var = ptr(simp(z[2][1]))
    idx = strip(var[0][0]) if len(var) == 1 else ("c", 0)
    if off or len(var) > 1 or not any(y[0] == "begin" and y[3] is not None and simp(y[3]) == b and L.cname(e, y) == L.cname(e, z) for y in t.ev[:t.at(z)]):
        return False
    for q in yes:
        a = ptr(simp(q[2][1]))[0]
        for y in t.ev[:t.at(q)]:
            if y[0] == "at" and y[3] is not None and simp(y[3]) == a and L.cname(e, y) == L.cname(e, z) and linv(strip(y[2][1])) == linv(idx):
                return True
    return False


def copied_element(L, e, z, yes):
    """was the correlated request a copy of the current element (a predicate that takes its argument by value)?"""
    t = L.of(e)
    for q in yes:
        if ptr(simp(q[2][1]))[0][0] == "al" and L.desc(e, q[2][1], t.at(q)):
            if z is None:
                return True
            b = ptr(simp(z[2][1]))[0]
            for y in t.ev[:t.at(q)]:
                if y[0] in ("f.ctor", "s.ctor") and len(y[2]) > 1 and ptr(simp(y[2][0]))[0] == ptr(simp(q[2][1]))[0] and ptr(simp(y[2][1]))[0] == b:
                    return True
    return False


# ------------------------------------------------------------------ managed services
@prop("S05", "path-sensitive analysis of the managed service",
      "All paths of the constructor and of the handler of system events; any subscriber (or none) and event.")
def s05(c):
    cls = "kpsr::ManagedService"
    p = c.program(UNIT, [r".*kpsr::ManagedService::.*"], libkeep=KEEP)
    f = impl(c, p, [cls], "ManagedService")
    inst = "ManagedService"
    L, ends, m = ways(c, f)
    sub, name = A(f, 2), AN(f, 3)
    n = 0
    targets = set()
    for e in ends:
        if e.kind == "iter":
            continue
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        rg = [z for z in t.ev if z[0] == "CALL" and z[1].split("::")[-1].startswith("registerListener")]
        sv = [z for z in t.ev if z[0] == "CALL" and z[1] == "kpsr::Service::Service"]
        c.ob("built-as-service", inst, len(sv) == 1 and len(sv[0][2]) == 5 and is_arg(sv[0][2][2], A(f, 1)) and textof_key(L, e, sv[0][2][3], t.at(sv[0])) == name and strip(sv[0][2][4]) == ("c", 0), w, "the service is not built with its environment and name, as an ordinary service")
        if isnull(t, sub) is True:
            c.ob("no-subscriber", inst, not rg, w, "a missing subscriber is used")
            continue
        c.ob("no-subscriber", inst, isnull(t, sub) is False or not rg, w, "the subscriber is used without looking whether there is one")
        n += 1
        c.ob("listens", inst, len(rg) == 1 and rg[0][1].endswith("::registerListener") and is_arg(rg[0][2][0], sub), w, "the service does not listen to system events exactly once")
        for z in rg[:1]:
            c.ob("own-name", inst, len(z[2]) == 3 and textof_key(L, e, z[2][1], t.at(z)) == name, w, "the service listens under another name than its own")
            r = bound(p, f, L, e, z[2][2], t.at(z), cls)
            if r and r[0] == "member" and r[1] and is_arg(r[2], THIS):
                targets.add(re.sub(r"<.*>", "", r[1]))
            elif r and r[0] == "lambda":
                targets.update(q.sq for q in r[1])
            else:
                c.ob("handled", inst, False, w, "system events do not come to a method of this service")
    c.ob("listens", inst, n > 0, f.here(), "the service never listens to system events")
    en = next((t["enum"] for t in p.types if t.get("q") == "kpsr::SystemEventData" and t.get("enum")), None)
    c.need(en and "Start" in en and "Stop" in en, "the system events are gone")
    hs = [f for f in p.fns.values() if f.sq in targets]
    c.ob("handled", inst, bool(hs), "", "system events do not come to a method of this service")
    for f in hs:
        if f.sq.endswith("operator()") and "(anon)" in f.sq:
            cl = [q for q in p.fns.values() if q.sq == cls + "::onSystemMessageReceived"]
            if cl and all(lambda_ok(c, f, q.sq.rsplit("::", 1)[1]) for q in cl):
                f = cl[0]
        L, ends, m = ways(c, f)
        inst = f.sq.rsplit("::", 1)[1]
        if f.sq.endswith("operator()"):
            inst = "onSystemMessageReceived"
        for e in ends:
            t, w = L.of(e), where(f, e)
            up = [z for z in t.mine if z[0] == "CALL" and z[1].endswith("::startup")]
            dn = [z for z in t.mine if z[0] == "CALL" and z[1].endswith("::shutdown")]
            ot = [z for z in t.mine if z[0] == "CALL" and z[1].split("::")[-1] in ("start", "stop", "execute", "runOnce")]
            c.ob("through-service", inst, not ot, w, "the service is started or stopped behind the back of its base class")
            if e.kind == "iter":
                c.ob("once", inst, not up and not dn, w, "the service is started or stopped in a loop")
                continue
            if e.kind != "ret":
                continue
            got = {}
            vs = [z[3] for z in t.ev if z[0] == "LD" and is_arg(z[2][0], A(f, 1))] + [A(f, 1)]
            for k in ("Start", "Stop"):
                for v in vs:
                    d = t.m.decide(t.st, cmpv("eq", strip(v), ("c", en[k])))
                    if d is not None:
                        got[k] = d
            if got.get("Start") is True:
                got["Stop"] = False
            if got.get("Stop") is True:
                got["Start"] = False
            c.ob("start-event", inst, len(up) == (1 if got.get("Start") else 0) and (got.get("Start") is not None or not up), w, "the service is not started exactly by the start event")
            c.ob("stop-event", inst, len(dn) == (1 if got.get("Stop") else 0) and (got.get("Stop") is not None or not dn), w, "the service is not stopped exactly by the stop event")
            if got.get("Start") is None and got.get("Stop") is None:
                c.ob("start-event", inst, False, w, "the event is not looked at")
            for z in up + dn:
                c.ob("own-service", inst, is_arg(z[2][0], THIS) or "(anon)" in f.sq and re.match(r"this\.this(->|$)", L.desc(e, z[2][0], t.at(z))) is not None, w, "another service is told")
