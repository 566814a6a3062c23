"""Event emitters: delivery, one-time listeners, registration, discards, locking; subscriber and publisher on top of them."""
import os
import re

from ..build import VERIF
from ..cont import KEEP, Loops, cev, changes, found, isempty, merged, runs
from ..core import prop
from ..locks import replay
from ..sem import cmpv, lsum, ptr, simp, truthy, walk
from ..sym import linv, mkp
from .fsm import where

UNIT = os.path.join(VERIF, "units", "emitters.cpp")
SAFE, MULTI, SINGLE = "kpsr::SafeEventEmitter", "kpsr::UnsafeMultiListenerEventEmitter", "kpsr::UnsafeSingleListenerEventEmitter"
SUB, PUB = "kpsr::EventEmitterSubscriber", "kpsr::EventEmitterPublisher"
ROOTS = [r".*kpsr::(SafeEvent|Unsafe|EventEmitter(Sub|Pub|Midd|Fact)).*"]
NOTHROW = re.compile(r"^std::(__cxx11::|__shared|shared_ptr|vector|map|multimap|queue|unordered_map|_|function::function|function::operator=|make_shared|allocat|distance)|^operator|^llvm|::~|spdlog|fmt")


def thr(x):
    """user code and the interfaces may throw; memory exhaustion is left out"""
    return not NOTHROW.search(x.callee or "")


def eev():
    """containers, functions, locks, calls, loads ("LD", path, (address,), value) and stores ("STORE", path, (address, value))"""
    from ..sem import Ev, clean
    base = cev(fields=".", loads=True)

    def ev(m, x, st, vals, res):
        if x.op == "store":
            return Ev(("STORE", clean(m.path(st, vals[1])[0]), (simp(vals[1]), simp(vals[0])), None, x.i, x.get("ord")))
        return base(m, x, st, vals, res)
    ev.again = base.again
    return ev


def prog(c, dyn=None):
    return c.program(UNIT, ROOTS, libkeep=KEEP + [r"^std::distance$"], dyn=dyn)


def ways(c, f, **kw):
    c.analysed(f)
    ends, m = walk(f, eev(), throws=thr, sticky=changes(None), **kw)
    ends = [e for e in ends if e.kind != "stop" and not (e.x is not None and e.x.op == "unreachable")]
    c.count("paths", len(ends))
    return Loops(ends, f), ends, m


def method(c, p, cls, name, n=None):
    """the method of a class template (in all its instances here one)"""
    fs = [f for f in p.fns.values() if f.sq == cls + "::" + name and (n is None or len(f.args) == n)]
    c.need(fs, "%s::%s is gone" % (cls, name))
    return fs[0]


def A(f, n):
    """value of the n-th declared parameter"""
    k = next(i for i in range(len(f.args)) if f.argname(i) == "this")
    return ("arg", k + n)


def AN(f, n):
    return f.argname(A(f, n)[1])


def is_arg(v, a):
    return simp(v) == a or ptr(simp(v)) == (a, 0, ())


def strip(v):
    v = simp(v)
    while v[0] in ("cast", "ext", "trunc"):
        v = simp(next(q for q in v[1:] if isinstance(q, tuple)))
    return v


def equal(t, a, b):
    if a is None or b is None:
        return False
    a, b = strip(a), strip(b)
    return a == b or linv(a) == linv(b) or t.m.decide(t.st, cmpv("eq", a, b)) is True


def valdesc(L, e, v, k=None):
    """where a value was read"""
    v = strip(v)
    if v[0] == "ld":
        return L.desc(e, mkp(v[1], v[2], v[3]), k)
    return L.desc(e, v, k) if v[0] == "arg" else None


def held(L, e, v, k=None):
    """the value a variable holds before event k: what was stored there last, else where it was read from"""
    t = L.of(e)
    k = len(t.ev) if k is None else k
    b = ptr(simp(v))
    for j in range(k - 1, -1, -1):
        y = t.ev[j]
        if y[0] == "LOOP" and t.is_carried(y, v):
            return None
        if y[0] == "STORE" and ptr(y[2][0]) == b:
            return y[2][1]
        if y[0] != "LD" and t.writes(y, v):
            return None
    return None


def layout(c, p, tail):
    """{member: offset} of the class whose name ends so"""
    for t in p.types:
        if (t.get("q") or "").endswith(tail) and t.get("mem"):
            return {x["name"]: x["off"] for x in t["mem"] if x["name"]}
    c.need(False, "type %s is gone" % tail)


def members(c, p, cls, kinds):
    """names of the members by what they are: kinds = {key: regular expression over the type}"""
    for t in p.types:
        if re.match(re.escape(cls) + r"<.*>$", t.get("q") or "") and t.get("mem") and "::(anon)" not in t["q"] and not t["q"].endswith("::ListenerBase"):
            o = {}
            for x in t["mem"]:
                n = (p.types[p.strip(x["ty"])].get("name") or "") if p.strip(x["ty"]) is not None else ""
                for k, rx in kinds.items():
                    if re.match(rx, n) and not x["inh"]:
                        o.setdefault(k, "this." + x["name"])
            for k in kinds:
                c.need(k in o, "%s has no member for %s" % (cls, k))
            return o
    c.need(False, "%s is gone" % cls)


def calls(t, evs=None):
    """calls of listeners"""
    return [z for z in (t.mine if evs is None else evs) if z[0] == "f.call" or z[0] == "CALL" and z[1].endswith("::runCallback")]


class Safe:
    def __init__(self, c, p):
        m = members(c, p, SAFE, {"map": r"(unordered_)?multimap<|map<", "mutex": r"(recursive_|shared_)?mutex$", "next": r"(atomic<)?unsigned"})
        self.map, self.mutex, self.next = m["map"], m["mutex"], m["next"]
        o = layout(c, p, "::ListenerBase")
        c.need(all(k in o for k in ("id", "isOnce", "callback", "listenerStats")), "ListenerBase has changed")
        self.id, self.once, self.cb, self.stats = ("->+%d" % o[k] for k in ("id", "isOnce", "callback", "listenerStats"))


def snapshot(L, e, S, H, sub, before):
    """is the local container H, on this path and before that event, exactly the records of the name, in their order?"""
    t = L.of(e)
    rng = "%s{%s}" % (S.map, sub)
    for R in L.cur.values():
        if R.cont != rng or not (L.entered(e, R) and L.finished(e, R) and R.whole):
            continue
        turns = [x for x in L.ends if x.kind == "iter" and x.header == R.header]
        if not turns:
            continue
        lock = [O for O in L.cur.values() if O.header == R.header and O.cont == H and O.whole]
        ok, push = True, None
        for x in turns:
            tx = L.of(x)
            w = [z for z in tx.mine if z[0] in ("push", "insert-at", "assign", "swap", "clear", "pop", "erase", "resize") and L.cname(x, z) == H or z[0] in ("p.assign", "p.swap", "p.reset", "STORE") and z[2] and L.desc(x, z[2][0], tx.at(z)).startswith(H + "[")]
            if len(w) != 1 or L.desc(x, w[0][2][1] if len(w[0][2]) > 1 else w[0][2][0], tx.at(w[0])) != rng + "[*].second" or w[0][0] not in ("push", "p.assign"):
                ok = False
                break
            push = w[0][0] == "push"
            if not push and not (lock and L.desc(x, w[0][2][0], tx.at(w[0])) == H + "[*]"):
                ok = False
        if not ok:
            continue
        sized = [z for z in t.ev[:before] if (z[0] == "resize" or z[0] == "ctor" and len(z[2]) > 1 and strip(z[2][1])[0] != "al") and L.cname(e, z) == H]
        other = [z for z in t.ev[:before] if z[0] in ("clear", "pop", "erase", "swap", "push", "insert-at", "assign") and L.cname(e, z) == H and z in t.ev]
        if other:
            continue
        if push:
            if not sized:
                return True
            continue
        if len(sized) != 1:
            continue
        n = strip(sized[0][2][1])
        for z in t.ev[:before]:
            if z[0] == "CALL" and z[1] == "std::distance" and z[3] is not None and strip(z[3]) == n and len(z[2]) == 2:
                a, b = (simp(q) for q in z[2])
                if a[0] == "fld" and b[0] == "fld" and a[1] == b[1] and (a[2], b[2]) == ((0,), (1,)) and any(y[0] == "equal_range" and y[3] == a[1] and L.cname(e, y) == S.map and L.text(e, y[2][1], t.at(y)) == (("ld", sub),) for y in t.ev):
                    return True
            if z[0] == "count" and strip(z[3]) == n and L.cname(e, z) == S.map and L.text(e, z[2][1], t.at(z)) == (("ld", sub),):
                return True
    return False


def safe_turns(L, e, S):
    """the cursor over a local container of records that drives this turn"""
    for C in L.cur.values():
        if C.header == e.header and not C.cont.startswith("this.") and C.src[1][0] in ("begin", "data", "at"):
            return C
    return None


def flag(t, L, e, d, lo=0):
    """truth of what was read from that place"""
    r = None
    for z in t.ev[lo:]:
        if z[0] == "LD" and L.desc(e, z[2][0], t.at(z)) == d:
            b = truthy(t.m, t.st, z[3])
            r = b if b is not None else r
    return r


def deliver(c, p, f, S, rule_once=False):
    """E01/E02 for the emitter with a lock"""
    L, ends, m = ways(c, f)
    sub, ev, enq = AN(f, 1), A(f, 3), A(f, 2)
    heads = {}
    for e in ends:
        if e.kind == "iter":
            t = L.of(e)
            if calls(t):
                C = safe_turns(L, e, S)
                heads.setdefault(e.header, C)
    c.ob("listeners-called", SAFE, bool(heads) and all(heads.values()), f.here(), "no loop over the listeners of the name calls them")
    done = set()
    for e in ends:
        t = L.of(e)
        w = where(f, e)
        if e.kind == "iter" and e.header in heads and heads[e.header] is not None:
            C = heads[e.header]
            H = C.cont
            cs = calls(t)
            once = flag(t, L, e, H + "[*]" + S.once, len(e.pre))
            gone = taken(L, e, S, H, len(e.pre))
            if not rule_once:
                if cs:
                    c.ob("one-call-per-turn", SAFE, len(cs) == 1, w, "a listener is called %d times for one event" % len(cs))
                    z = cs[0]
                    k = t.at(z)
                    c.ob("current-listener", SAFE, L.desc(e, z[2][0], k) in (H + "[*]->", H + "[*]" + S.cb), w, "a turn calls %s instead of the current listener" % L.desc(e, z[2][0], k))
                    c.ob("event-passed", SAFE, len(z[2]) > 1 and is_arg(z[2][1], ev), w, "the listener gets something else than the event")
                    if z[0] == "CALL":
                        c.ob("time-passed", SAFE, len(z[2]) > 2 and is_arg(z[2][2], enq), w, "the listener gets something else than the enqueuing time")
                else:
                    c.ob("no-listener-skipped", SAFE, once is True and not gone, w, "a listener of the name is skipped")
                if id(C) not in done:
                    done.add(id(C))
                    c.ob("whole-snapshot", SAFE, C.whole, w, "the loop does not walk over all listeners from the first to the last")
            else:
                b = t.at(cs[0]) if cs else len(t.ev)
                if cs:
                    c.ob("once-known", SAFE, once is not None, w, "a listener is called without asking whether it is a one-time listener")
                    if once is True:
                        c.ob("taken-before-call", SAFE, any(t.at(g) < b for g in gone), w, "a one-time listener runs without having been removed by this very emission: it can run again")
                    elif once is False:
                        c.ob("permanent-stays", SAFE, not any(z[0] in ("erase", "clear", "swap", "extract") and L.cname(e, z) == S.map for z in t.mine), w, "a permanent listener is removed by an emission")
                for z in t.mine:
                    if z[0] in ("erase", "extract") and L.cname(e, z) == S.map:
                        c.ob("takes-only-itself", SAFE, z in gone, w, "an emission removes a listener other than the one it calls")
        elif e.kind == "ret" and not rule_once:
            for C in heads.values():
                if C is None:
                    continue
                c.ob("all-turns", SAFE, L.entered(e, C) and L.finished(e, C), w, "the emission ends before all listeners were called")
                src = [y for y in t.ev if y[0] in ("begin", "data") and L.cname(e, y) == C.cont]
                c.ob("snapshot", SAFE, snapshot(L, e, S, C.cont, sub, t.at(src[-1]) if src else len(t.ev)), w, "what is called is not the list of all listeners registered under the name")
            c.ob("calls-in-loop", SAFE, not calls(t, t.ev), w, "a listener is called outside of the loop over the listeners")
        if not rule_once and e.kind == "iter" and e.header not in heads:
            c.ob("calls-in-loop", SAFE, not calls(t), w, "a listener is called in another loop")


def taken(L, e, S, H, lo):
    """events that remove from the register the record with the id of the current handler"""
    t = L.of(e)
    o = []
    ids = [z for z in t.ev[lo:] if z[0] == "LD" and L.desc(e, z[2][0], t.at(z)) == H + "[*]" + S.id]
    for z in t.ev[lo:]:
        if z[0] not in ("erase", "extract") or L.cname(e, z) != S.map or len(z[2]) != 2:
            continue
        v = simp(z[2][1])
        for y in t.ev[lo:]:
            if y[0] != "LD" or t.at(y) > t.at(z):
                continue
            a = simp(y[2][0])
            # id of the record the iterator stands at: its value is read through the iterator
            if L.desc(e, y[2][0], t.at(y)).endswith("[*].second" + S.id) and L.desc(e, y[2][0], t.at(y)).startswith(S.map) and through(a, v):
                if any(equal(t, y[3], i[3]) for i in ids):
                    o.append(z)
                    break
    return o


def through(a, v):
    """is the address a computed by loads that start at the node v?"""
    for _ in range(6):
        b = ptr(a)[0]
        if b == v or ptr(v)[0] == b and ptr(v)[1] == 0 and b[0] != "ld":
            return True
        if b == ptr(v)[0] and ptr(v)[1] == 0:
            return True
        if b[0] != "ld":
            return False
        a = b[1]
    return False


# --------------------------------------------------------------- E01
@prop("E01", "path-sensitive analysis of emission: snapshot of the register, one call per turn of the loop, bodies of the wrappers",
      "All paths of emitEvent of the three emitters and of every wrapper put around a listener; any register, name and event; std containers are trusted.")
def e01(c):
    p = prog(c)
    S = Safe(c, p)
    deliver(c, p, method(c, p, SAFE, "emitEvent"), S)
    for f in p.fns.values():
        if f.sq.startswith(SAFE) and f.sq.endswith("::runCallback"):
            body(c, f, f.sq.rsplit("::", 2)[1])
    M = Multi(c, p)
    multi_emit(c, p, M)
    for f in p.fns.values():
        if re.match(r"kpsr::Unsafe\w+EventEmitter::on::\(anon\)::operator\(\)$", f.sq):
            body(c, f, f.sq.split("::")[1] + " wrapper")
    single_emit(c, p, Single(c, p))


class Multi:
    def __init__(self, c, p):
        s = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
        m = members(c, p, MULTI, {"names": r"(unordered_)?map<%s, unsigned int" % re.escape(s), "subs": r"(unordered_)?map<%s, std::(vector|deque|list)<unsigned int" % re.escape(s), "stats": r"(unordered_)?map<unsigned int, std::shared_ptr<kpsr::Sub", "fns": r"(vector|deque)<std::function<"})
        self.names, self.subs, self.stats, self.fns = m["names"], m["subs"], m["stats"], m["fns"]


class Single:
    def __init__(self, c, p):
        m = members(c, p, SINGLE, {"on": r"atomic<bool>|bool$", "stats": r"shared_ptr<kpsr::Sub", "cb": r"function<void \(const [^,]*\)>$", "wrap": r"function<void \(const [^,]*, unsigned"})
        self.on, self.stats, self.cb, self.wrap = m["on"], m["stats"], m["cb"], m["wrap"]


def body(c, f, n):
    """a wrapper calls the listener exactly once, with the event"""
    L, ends, m = ways(c, f)
    for e in ends:
        t = L.of(e)
        if e.kind == "iter":
            c.ob("wrapper-calls-once", n, not calls(t), where(f, e), "a wrapper calls its listener in a loop")
        if e.kind != "ret":
            continue
        cs = calls(t, t.ev)
        c.ob("wrapper-calls-once", n, len(cs) == 1, where(f, e), "a wrapper calls its listener %d times for one event" % len(cs))
        for z in cs:
            d = L.desc(e, z[2][0], t.at(z))
            c.ob("wrapper-calls-own", n, d.startswith("this."), where(f, e), "a wrapper calls %s, which is not what it wraps" % d)
            c.ob("wrapper-passes-event", n, len(z[2]) > 1 and is_arg(z[2][1], A(f, 1)), where(f, e), "a wrapper hands something else than the event to its listener")


def multi_emit(c, p, M):
    f = method(c, p, MULTI, "emitEvent")
    L, ends, m = ways(c, f)
    sub, enq, ev = AN(f, 1), A(f, 2), A(f, 3)
    ids = "%s{%s}" % (M.subs, sub)
    loops = [C for C in L.cur.values() if C.cont == ids]
    c.ob("listeners-called", MULTI, bool(loops), f.here(), "no loop over the listeners of the name")
    for e in ends:
        t, w = L.of(e), where(f, e)
        mine = [C for C in loops if C.header == e.header] if e.kind == "iter" else []
        if mine:
            cs = calls(t)
            c.ob("one-call-per-turn", MULTI, len(cs) == 1, w, "a listener is called %d times for one event" % len(cs))
            c.ob("whole-list", MULTI, all(C.whole for C in mine), w, "the loop does not walk over all listeners from the first to the last")
            for z in cs:
                el = t.element(z[2][0], t.at(z))
                c.ob("current-listener", MULTI, el is not None and el[0] == "at" and L.cname(e, el[3]) == M.fns and valdesc(L, e, el[3][2][1], t.at(el[3])) == ids + "[*]", w, "a turn calls something else than the listener of the current id")
                c.ob("event-passed", MULTI, len(z[2]) == 3 and is_arg(z[2][1], ev), w, "the listener gets something else than the event")
                c.ob("time-passed", MULTI, len(z[2]) == 3 and is_arg(z[2][2], enq), w, "the listener gets something else than the enqueuing time")
        else:
            c.ob("calls-in-loop", MULTI, not calls(t, t.ev if e.kind == "ret" else ()), w, "a listener is called outside of the loop over the listeners of the name")
        if e.kind == "ret":
            none = found(L, e, M.subs, (("ld", sub),)) is False
            c.ob("all-turns", MULTI, none or any(L.entered(e, C) and L.finished(e, C) for C in loops), w, "the emission ends before all listeners of the name were called")


def named(L, e, sub):
    """is the name known to be (or not to be) the registered one? The other operand is a member"""
    t = L.of(e)
    r = None
    for y in t.ev:
        if y[0] in ("s.eq", "s.ne", "s.compare") and len(y[2]) > 1:
            d = [L.desc(e, q, t.at(y)) for q in y[2][:2]]
            if sub in d and "this._subscriberName" in d:
                b = truthy(t.m, t.st, y[3]) if y[0] != "s.compare" else t.m.decide(t.st, cmpv("eq", simp(y[3]), ("c", 0)))
                if b is not None:
                    r = (not b) if y[0] == "s.ne" else b
    return r


def single_emit(c, p, S):
    f = method(c, p, SINGLE, "emitEvent")
    L, ends, m = ways(c, f)
    sub, enq, ev = AN(f, 1), A(f, 2), A(f, 3)
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "iter":
            c.ob("calls-in-loop", SINGLE, not calls(t), w, "the listener is called in a loop")
        if e.kind not in ("ret", "exc"):
            continue
        cs = calls(t, t.ev)
        eq, on = named(L, e, sub), flag(t, L, e, S.on)
        if cs:
            c.ob("one-call", SINGLE, len(cs) == 1, w, "the listener is called %d times for one event" % len(cs))
            c.ob("called-if-registered", SINGLE, eq is True and on is True, w, "the listener is called for another name or without being registered")
            for z in cs:
                c.ob("current-listener", SINGLE, L.desc(e, z[2][0], t.at(z)) == S.wrap, w, "something else than the registered listener is called")
                c.ob("event-passed", SINGLE, len(z[2]) == 3 and is_arg(z[2][1], ev), w, "the listener gets something else than the event")
                c.ob("time-passed", SINGLE, len(z[2]) == 3 and is_arg(z[2][2], enq), w, "the listener gets something else than the enqueuing time")
        elif e.kind == "ret":
            c.ob("not-called-only-if", SINGLE, eq is False or on is False, w, "a registered listener of the name is not called")


# --------------------------------------------------------------- E02
@prop("E02", "path-sensitive analysis of one-time listeners: removal under the lock before the call, tied to the same record",
      "All paths of emitEvent of the safe emitter for any number of simultaneous emissions, and of once() of the others.")
def e02(c):
    p = prog(c)
    S = Safe(c, p)
    deliver(c, p, method(c, p, SAFE, "emitEvent"), S, True)
    for cls in (MULTI, SINGLE):
        f = method(c, p, cls, "once")
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind in ("ret", "iter"):
                c.ob("unsupported-once-refused", cls, False, where(f, e), "an emitter without one-time listeners accepts one")
            elif e.kind == "throw":
                t = L.of(e)
                c.ob("unsupported-once-refused", cls, not any(z[0] == "STORE" and z[1].startswith("this.") or z[0] in ("push", "insert", "f.assign") and L.cname(e, z).startswith("this.") for z in t.ev), where(f, e), "a refused one-time listener changes the register")


# --------------------------------------------------------------- E03
NULLP = ("null",)


def isnull(t, v):
    """is the pointer value known to be null (True), known not to be (False), or unknown (None)?"""
    v = simp(v)
    if v in (("c", 0), NULLP):
        return True
    return t.m.decide(t.st, cmpv("eq", v, NULLP))


def loaded_null(L, e, d, lo=0, hi=None):
    """is the pointer at that place, as read on this path, null?"""
    t = L.of(e)
    r = None
    for z in t.ev[lo:hi]:
        if z[0] == "LD" and L.desc(e, z[2][0], t.at(z)) == d:
            b = isnull(t, z[3])
            r = b if b is not None else r
        if z[0] == "p.operator bool" and L.desc(e, z[2][0], t.at(z)) == d:
            b = truthy(t.m, t.st, z[3])
            r = (not b) if b is not None else r
    return r


def made(L, e, v, k):
    """the make_shared call a shared pointer comes from: (event, argument values) or None"""
    t = L.of(e)
    v, k = t.origin(v, k)
    for j in range(k - 1, -1, -1):
        y = t.ev[j]
        if y[0] == "CALL" and y[1] in ("std::make_shared", "std::allocate_shared") and y[2] and t.same(y[2][0], v):
            return y, y[2][1:]
        if y[2] and t.writes(y, v) and not y[0].endswith("dtor"):
            return None
    return None


def kind_of(t, y):
    """the type std::make_shared makes"""
    k = re.search(r"make_shared<(.*?)[,>]", t.fn.insts[y[4]].get("dem") or "")
    d = t.fn.insts[y[4]].get("dem") or ""
    return "ListenerWithStats" if "ListenerWithStats" in d.split("(")[0] else "ListenerBase" if "ListenerBase" in d.split("(")[0] else "SubscriptionStats" if "SubscriptionStats" in d.split("(")[0] else k.group(1) if k else "?"


def textof(L, e, v, k):
    x = L.text(e, v, k)
    return x[0][1] if len(x) == 1 and x[0][0] == "ld" else None


def attach_ok(c, L, e, cls, cont, stats, what, need=True):
    """attach/detach of the statistics happens exactly if there is a container; stats(z) says whether it is the right object"""
    t, w = L.of(e), where(t_fn(L), e)
    zs = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("Container::" + what)]
    null = isnull(t, cont)
    if null is not True:
        if need:
            c.ob(what + "-statistics", cls, len(zs) == 1 or null is None and not zs, w, "the statistics of the listener are not %sed although there is a container" % what)
    for z in zs:
        c.ob(what + "-to-container", cls, null is False and is_arg(z[2][0], cont), w, "%s is called on something else than the given container" % what)
        c.ob(what + "-own-statistics", cls, stats(z), w, "statistics of something else are %sed" % what)
    return zs


def t_fn(L):
    return L.fn


def safe_add(c, p, S, name, once, deltas):
    f = method(c, p, SAFE, name)
    L, ends, m = ways(c, f)
    inst = SAFE + "::" + name
    cont = None if once else A(f, 1)
    lis = None if once else AN(f, 2)
    sub = AN(f, 1) if once else AN(f, 3)
    cb = AN(f, 2) if once else AN(f, 4)
    nret = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "iter":
            c.ob("registered-once", inst, not any(z[0] in ("insert", "erase", "clear") and L.cname(e, z) == S.map for z in t.mine), w, "the register changes in a loop")
        if e.kind != "ret":
            continue
        nret += 1
        ins = [z for z in t.ev if z[0] in ("insert", "erase", "clear", "swap", "extract", "assign") and L.cname(e, z) == S.map]
        c.ob("registered-once", inst, len(ins) == 1 and ins[0][0] == "insert", w, "registering a listener does not add exactly one record")
        if len(ins) != 1 or ins[0][0] != "insert":
            continue
        z = ins[0]
        k = t.at(z)
        if len(z[2]) == 2:
            key, val = z[2][1], mkp(z[2][1], 32)
        else:
            key, val = z[2][-2], z[2][-1]
        c.ob("registered-under-name", inst, textof(L, e, key, k) == sub, w, "a listener is registered under another name")
        mk = made(L, e, val, k)
        c.ob("record-made", inst, mk is not None, w, "the record of the listener is not built here")
        if mk is None:
            continue
        y, a = mk
        ky = t.at(y)
        kind = kind_of(t, y)
        ident = held(L, e, a[0], ky) if a else None
        c.ob("id-returned", inst, ident is not None and (equal(t, e.val, ident) or strip(e.val)[0] == "ld" and ptr(simp(a[0])) == ptr(mkp(*strip(e.val)[1:4]))), w, "the returned id is not the id of the record")
        st = [q for q in t.ev if q[0] == "STORE" and L.desc(e, q[2][0], t.at(q)) == S.next or q[0] == "CALL" and "fetch_" in q[1] and L.desc(e, q[2][0], t.at(q)) == S.next]
        ld = [q for q in t.ev if q[0] == "LD" and L.desc(e, q[2][0], t.at(q)) == S.next]
        fresh = False
        if len(st) == 1 and st[0][0] == "STORE" and ld and ident is not None:
            d = lsum(linv(strip(st[0][2][1])), linv(strip(ld[0][3])), -1)
            g = lsum(linv(strip(ident)), linv(strip(ld[0][3])), -1)
            fresh = not d[0] and d[1] == 1 and not g[0] and g[1] in (0, 1)
            if fresh:
                deltas.add(g[1])
        c.ob("id-fresh", inst, fresh, w, "ids are not counted up by one for each listener")
        o = held(L, e, a[1], ky) if len(a) > 1 else None
        ob = None if o is None else bool(simp(o)[1]) if simp(o)[0] == "c" else truthy(t.m, t.st, o)
        c.ob("kind-recorded", inst, ob is once, w, "the record does not say whether the listener is a one-time listener")
        c.ob("callback-recorded", inst, len(a) > 2 and L.desc(e, a[2], ky) == cb, w, "the record holds something else than the callback")
        if once:
            c.ob("no-statistics-kind", inst, kind == "ListenerBase", w, "a one-time listener has no statistics, but its record uses them")
            c.ob("attach-statistics", inst, not any(q[0] == "CALL" and "Container::" in q[1] for q in t.ev), w, "a one-time listener is attached to a container")
            continue
        c.ob("statistics-kind", inst, kind == "ListenerWithStats" and len(a) > 3, w, "a permanent listener is registered without statistics")
        if len(a) > 3:
            sm = made(L, e, a[3], ky)
            so = t.origin(a[3], ky)[0]
            c.ob("statistics-made", inst, sm is not None and len(sm[1]) > 1 and textof(L, e, sm[1][0], t.at(sm[0])) == sub and textof(L, e, sm[1][1], t.at(sm[0])) == lis, w, "the statistics do not carry the names of the subscriber and of the listener")
            attach_ok(c, L, e, inst, cont, lambda q: same_stats(L, e, q, so), "attach")
    c.ob("registers", inst, nret > 0, f.here(), "nothing is ever registered")


def same_stats(L, e, q, so):
    """does the call get what the shared pointer object so points to?"""
    t = L.of(e)
    v = simp(q[2][1])
    if v[0] == "ld" or ptr(v)[0][0] == "ld":
        b = ptr(v)[0]
        o = t.origin(mkp(b[1], b[2], b[3]), t.at(q))[0]
        return t.same(o, so)
    return any(y[0] == "p.get" and y[3] is not None and simp(y[3]) == v and t.same(t.origin(y[2][0], t.at(y))[0], so) for y in t.ev)


def safe_remove(c, p, S):
    f = method(c, p, SAFE, "removeListener")
    L, ends, m = ways(c, f)
    cont, ident = A(f, 1), A(f, 2)
    inst = SAFE + "::removeListener"
    seen = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ers = [z for z in (t.mine if e.kind == "iter" else t.ev) if z[0] in ("erase", "extract", "clear", "swap", "insert") and L.cname(e, z) == S.map]
        if e.kind == "iter":
            c.ob("removed-once", inst, not ers, w, "records are removed in a loop")
            C = [C for C in L.cur.values() if C.header == e.header and C.cont == S.map]
            if C:
                c.ob("search-by-id", inst, any(z[0] == "LD" and L.desc(e, z[2][0], t.at(z)) == S.map + "[*].second" + S.id and t.m.decide(t.st, cmpv("eq", strip(z[3]), ident)) is False for z in t.mine), w, "the search passes by a record that may have the id")
            continue
        if e.kind == "ret":
            seen += 1
            c.ob("removed-once", inst, len(ers) == 1 and ers[0][0] in ("erase", "extract") and len(ers[0][2]) == 2, w, "removing a listener does not remove exactly one record")
            if len(ers) != 1 or len(ers[0][2]) != 2:
                continue
            z = ers[0]
            it = simp(z[2][1])
            c.ob("removed-by-id", inst, any(y[0] == "LD" and L.desc(e, y[2][0], t.at(y)) == S.map + "[*].second" + S.id and equal(t, y[3], ident) for y in t.ev[:t.at(z)]) and at_current(L, e, it, S.map), w, "a record with another id is removed")
            none = loaded_null(L, e, S.map + "[*].second" + S.stats, 0, t.at(z))
            zs = attach_ok(c, L, e, inst, cont, lambda q: L.desc(e, q[2][1], t.at(q)) == S.map + "[*].second" + S.stats + "->" and t.at(q) < t.at(z), "detach", need=none is False)
            c.ob("detach-statistics", inst, not zs or none is False, w, "statistics a listener may not have are detached")
            c.ob("statistics-looked-at", inst, isnull(t, cont) is True or none is not None, w, "the statistics of a removed listener stay attached to the container")
        elif e.kind in ("throw", "exc") and any(z[0] == "THROW" for z in t.ev):
            th = [z for z in t.ev if z[0] == "THROW"][-1]
            c.ob("unknown-id-refused", inst, "invalid_argument" in str(th[1]) and bool(runs(L, e, S.map)) and not ers, w, "an id is refused although it may be registered, or otherwise than by std::invalid_argument")
    c.ob("removes", inst, seen > 0, f.here(), "nothing is ever removed")


def at_current(L, e, it, cont):
    """does the iterator value stand at the current element of a cursor over the container?"""
    t = L.of(e)
    for C in L.cur.values():
        if C.cont == cont:
            v = (e.phis or {}).get(C.phi, (None, None))[0] if e.header == C.header else t.st.env.get(C.phi)
            if v is not None and (simp(v) == it or t.m.decide(t.st, cmpv("eq", simp(v), it)) is True):
                return True
    return False


def emptied(L, e, z, n):
    """does the event take everything out of the container?"""
    t = L.of(e)
    if not z[2] or z[0] not in ("clear", "erase", "swap", "assign"):
        return False
    k = t.at(z)
    if z[0] == "clear":
        return L.cname(e, z) == n
    if z[0] == "erase":
        def edge(v, what):
            return any(y[0] == what and L.cname(e, y) == n and y[3] is not None and (simp(y[3]) == simp(v) or t.m.decide(t.st, cmpv("eq", simp(y[3]), simp(v))) is True) for y in t.ev[:k])
        return L.cname(e, z) == n and len(z[2]) == 3 and edge(z[2][1], "begin") and edge(z[2][2], "end")
    for a, b in ((0, 1), (1, 0)):
        if len(z[2]) > 1 and L.desc(e, z[2][a], k) == n and (z[0] == "swap" or a == 0):
            loc = [y for y in t.ev[:k] if y[2] and t.same(y[2][0], z[2][b]) and y[0] not in ("LD", "size", "empty")]
            return bool(loc) and all(y[0] == "ctor" and len(y[2]) == 1 for y in loc)
    return False


def remove_all(c, p, cls, cleared, stats_loop):
    """everything is cleared, the statistics of every record are detached before"""
    f = method(c, p, cls, "removeAllListeners")
    L, ends, m = ways(c, f)
    cont = A(f, 1)
    cname, elem, ptrs = stats_loop
    inst = cls + "::removeAllListeners"
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "iter":
            C = [C for C in L.cur.values() if C.header == e.header and C.cont == cname]
            zs = [z for z in t.mine if z[0] == "CALL" and z[1].endswith("Container::detach")]
            if C and (isnull(t, cont) is False or zs):
                none = loaded_null(L, e, cname + "[*]" + elem, len(e.pre)) if ptrs else False
                c.ob("all-detached", inst, (len(zs) == 1) if none is not True else not zs, w, "the statistics of a listener stay attached, or missing ones are detached")
                for z in zs:
                    c.ob("detach-own-statistics", inst, is_arg(z[2][0], cont) and L.desc(e, z[2][1], t.at(z)) == cname + "[*]" + elem + "->", w, "something else than the statistics of the current listener is detached")
        elif e.kind == "ret":
            for n in cleared:
                c.ob("all-cleared", inst, any(emptied(L, e, z, n) for z in t.ev), w, "%s keeps records after all listeners were removed" % n[5:])
            if isnull(t, cont) is not True:
                rs = runs(L, e, cname)
                c.ob("all-detached", inst, bool(rs), w, "not all statistics are detached from the container")
                cl = [t.at(z) for z in t.ev if z[0] == "clear" and L.cname(e, z) == cname]
                bg = [t.at(z) for z in t.ev if z[0] == "begin" and L.cname(e, z) == cname]
                c.ob("detached-before-cleared", inst, not bg or not cl or max(bg) < min(cl), w, "the records are cleared before their statistics are detached")


def safe_stats(c, p, S):
    f = method(c, p, SAFE, "getListenerStats")
    L, ends, m = ways(c, f)
    idp = A(f, 1)
    inst = SAFE + "::getListenerStats"
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "iter":
            continue
        if e.kind != "ret":
            continue
        r = result(L, e)
        if r == "null":
            c.ob("none-only-if-unknown", inst, bool(runs(L, e, S.map)), w, "no statistics are returned although the listener may be registered")
        else:
            ok = r == S.map + "[*].second" + S.stats and any(y[0] == "LD" and L.desc(e, y[2][0], t.at(y)) == S.map + "[*].second" + S.id and any(q[0] == "LD" and ptr(q[2][0]) == (idp, 0, ()) and equal(t, q[3], y[3]) for q in t.ev) for y in t.ev)
            c.ob("own-statistics", inst, ok, w, "the statistics of something else are returned: %s" % r)


def result(L, e):
    """what a shared pointer returned by value is copied from"""
    t = L.of(e)
    for z in reversed(t.ev):
        if z[2] and simp(z[2][0]) == ("arg", 0) and z[0] in ("p.ctor", "p.assign"):
            if len(z[2]) < 2:
                return "null"
            if isnull(t, z[2][1]) is True:
                return "null"
            return "null" if L.desc(e, z[2][1], t.at(z)) == "null" else L.desc(e, z[2][1], t.at(z))
    return None


@prop("E03", "path-sensitive analysis of registration and removal over container models",
      "All paths of on, once, removeListener, removeAllListeners and getListenerStats of the three emitters; any register and arguments.")
def e03(c):
    p = prog(c)
    S = Safe(c, p)
    deltas = set()
    safe_add(c, p, S, "on", False, deltas)
    safe_add(c, p, S, "once", True, deltas)
    c.ob("ids-unique", SAFE, len(deltas) <= 1, "", "on and once count ids differently: two listeners can get the same id")
    safe_remove(c, p, S)
    remove_all(c, p, SAFE, [S.map], (S.map, ".second" + S.stats, True))
    safe_stats(c, p, S)
    M = Multi(c, p)
    multi_on(c, p, M)
    multi_remove(c, p, M)
    remove_all(c, p, MULTI, [M.names, M.subs, M.stats, M.fns], (M.stats, ".second", False))
    lookup_stats(c, p, MULTI, M)
    S1 = Single(c, p)
    single_on(c, p, S1)
    single_remove(c, p, S1, "removeListener")
    single_remove(c, p, S1, "removeAllListeners")
    single_stats(c, p, S1)


def puts(L, e, cont, evs=None):
    """(name of the key, value, event) of what is stored in a map on this path; values are event operands or None"""
    t = L.of(e)
    for z in t.ev if evs is None else evs:
        k = t.at(z)
        if z[0] == "STORE" and ptr(z[2][0])[0][0] == "call":
            d = L.desc(e, z[2][0], k)
            if d.startswith(cont + "{") and d.endswith("}"):
                yield d[len(cont) + 1:-1], z[2][1], z
        elif z[0] in ("p.assign", "p.swap", "assign", "f.assign", "s.assign"):
            d = L.desc(e, z[2][0], k) if ptr(simp(z[2][0]))[0][0] == "call" else ""
            if ptr(simp(z[2][0]))[0][0] == "call":
                el = t.element(mkp(*[ptr(simp(z[2][0]))[0], 0, ()]), k)
                if el and el[0] == "map" and el[1] == cont:
                    yield show_key(L, e, el[3]), z[2][1], z
        elif z[0] in ("insert", "assign-key") and L.cname(e, z) == cont:
            if len(z[2]) == 3:
                yield show_key(L, e, z), z[2][2], z
            else:
                yield keyname(L, e, z[2][1], k), ("second", z[2][1]), z


def keyname(L, e, v, k):
    from ..cont import show
    return show(L.text(e, v, k))


def show_key(L, e, y):
    return keyname(L, e, y[2][1], L.of(e).at(y))


def putval(L, e, v, k):
    """the number a map entry gets"""
    if v[0] == "second":
        return None
    if ptr(simp(v))[0][0] in ("al", "arg") and simp(v)[0] in ("al", "p", "arg"):
        h = held(L, e, v, k)
        return h if h is not None else v
    return v


def num_at(L, e, v, k):
    """the number in the variable a reference operand points to"""
    h = held(L, e, v, k)
    if h is not None:
        return h
    t = L.of(e)
    for y in t.ev:
        if y[0] == "LD" and ptr(simp(y[2][0])) == ptr(simp(v)):
            return y[3]
    return None


def just_pushed(L, e, v):
    """the value added to the list whose last element v was read from"""
    t = L.of(e)
    v = strip(v)
    for k, y in enumerate(t.ev):
        if v is not None and v[0] == "ld" and y[0] == "back" and y[3] is not None and simp(y[3]) == v[1] and not v[2] and not v[3]:
            p = [z for z in t.ev[:k] if z[0] not in ("LD", "back", "size", "empty") and z[2] and t.same(z[2][0], y[2][0])]
            if p and p[-1][0] == "push":
                return num_at(L, e, p[-1][2][1], t.at(p[-1]))
    return v


def multi_on(c, p, M):
    f = method(c, p, MULTI, "on")
    L, ends, m = ways(c, f)
    cont, lis, sub, cb = A(f, 1), AN(f, 2), AN(f, 3), AN(f, 4)
    inst = MULTI + "::on"
    for e in ends:
        t, w = L.of(e), where(f, e)
        push = [z for z in (t.mine if e.kind == "iter" else t.ev) if z[0] in ("push", "erase", "clear", "assign", "insert", "pop", "resize", "swap", "insert-at") and z[2]]
        reg = [z for z in push if L.cname(e, z) in (M.fns, M.names, M.stats, M.subs) or L.cname(e, z).startswith(M.subs + "{")]
        if e.kind == "iter":
            c.ob("registered-once", inst, not reg, w, "the register changes in a loop")
        if e.kind != "ret":
            continue
        known = found(L, e, M.names, (("ld", lis),))
        names = list(puts(L, e, M.names))
        stats = list(puts(L, e, M.stats))
        if known is True:
            c.ob("known-listener-kept", inst, not reg and not names and not stats, w, "registering a known listener again changes the register")
            c.ob("known-id-returned", inst, valdesc(L, e, e.val) == "%s{%s}" % (M.names, lis), w, "registering a known listener again returns another id")
            continue
        c.ob("known-looked-up", inst, known is False, w, "a listener is registered without looking whether its name is known")
        fp = [z for z in reg if L.cname(e, z) == M.fns]
        c.ob("callback-added", inst, len(fp) == 1 and fp[0][0] == "push", w, "registering a listener does not add exactly one callback at the end")
        if len(fp) != 1 or fp[0][0] != "push":
            continue
        size = [z for z in t.ev[:t.at(fp[0])] if z[0] == "size" and L.cname(e, z) == M.fns]
        ident = strip(size[-1][3]) if size else None
        c.ob("id-is-index", inst, ident is not None and equal(t, just_pushed(L, e, e.val), ident), w, "the returned id is not the index of the callback")
        c.ob("callback-recorded", inst, wraps(L, e, fp[0][2][1], t.at(fp[0]), cb), w, "what is called on an event is not the given callback")
        if ident is None:
            continue
        c.ob("name-recorded", inst, len(names) == 1 and names[0][0] == lis and equal(t, putval(L, e, names[0][1], t.at(names[0][2])), ident), w, "the id is not recorded under the name of the listener")
        sp = [z for z in reg if L.cname(e, z) == "%s{%s}" % (M.subs, sub) and z[0] in ("push", "insert-at")]
        c.ob("subscribed", inst, len(sp) == 1 and sp[0][0] == "push" and equal(t, num_at(L, e, sp[0][2][1], t.at(sp[0])), ident), w, "the id is not added once, at the end of the list of the subscriber")
        for k, v, z in puts(L, e, M.subs):
            c.ob("others-kept", inst, k == sub and found(L, e, M.subs, (("ld", sub),), t.at(z)) is False, w, "the list of a known subscriber is replaced")
        none = isnull(t, cont)
        if none is True:
            c.ob("statistics-recorded", inst, not stats, w, "statistics without a container")
            c.ob("attach-statistics", inst, not any(q[0] == "CALL" and "Container::" in q[1] for q in t.ev), w, "statistics are attached to no container")
        elif none is False:
            c.ob("statistics-recorded", inst, len(stats) == 1, w, "the statistics of the listener are not recorded")
            if len(stats) == 1:
                z = stats[0][2]
                sv = stats[0][1]
                so = t.origin(sv, t.at(z))[0] if sv[0] != "second" else None
                kv = next((num_at(L, e, q[2][1], t.at(q)) for q in t.ev if q[0] in ("mapat", "insert", "assign-key") and L.cname(e, q) == M.stats), None)
                c.ob("statistics-recorded", inst, kv is not None and equal(t, kv, ident), w, "the statistics are recorded under another id")
                sm = made(L, e, sv, t.at(z)) if so is not None else None
                c.ob("statistics-made", inst, sm is not None and len(sm[1]) > 1 and textof(L, e, sm[1][0], t.at(sm[0])) == sub and textof(L, e, sm[1][1], t.at(sm[0])) == lis, w, "the statistics do not carry the names of the subscriber and of the listener")
                attach_ok(c, L, e, inst, cont, lambda q: so is not None and same_stats(L, e, q, so), "attach")


def wraps(L, e, v, k, cb, depth=6):
    """does the function object hold a copy of the callback?"""
    t = L.of(e)
    todo, seen = [simp(v)], set()
    while todo and depth > 0:
        depth -= 1
        o = todo.pop()
        b = ptr(o)[0]
        if b in seen:
            continue
        seen.add(b)
        for y in t.ev[:k]:
            if y[0] in ("f.ctor", "f.assign", "CALL") and len(y[2]) > 1 and ptr(simp(y[2][0]))[0] == b and (y[0] != "CALL" or t.is_copy(y)):
                if L.desc(e, y[2][1], t.at(y)) == cb:
                    return True
                todo.append(simp(y[2][1]))
    return False


def multi_remove(c, p, M):
    f = method(c, p, MULTI, "removeListener")
    L, ends, m = ways(c, f)
    cont, ident = A(f, 1), A(f, 2)
    inst = MULTI + "::removeListener"
    vec = M.subs + "[*].second"
    dropped = 0

    def is_id(t, v):
        return equal(t, v, ident)
    for e in ends:
        t, w = L.of(e), where(f, e)
        evs = t.mine if e.kind == "iter" else t.ev
        if e.kind not in ("iter", "ret"):
            continue
        for z in evs:
            k = t.at(z)
            if z[0] in ("erase", "clear", "pop", "push", "assign", "swap", "insert", "resize") and z[2]:
                n = L.cname(e, z)
                if n == M.fns:
                    c.ob("ids-stay", inst, False, w, "removing a listener moves the callbacks of others")
                elif n == M.names:
                    c.ob("only-own-name", inst, z[0] == "erase" and len(z[2]) == 2 and any(y[0] == "LD" and L.desc(e, y[2][0], t.at(y)) == M.names + "[*].second" and is_id(t, y[3]) for y in t.ev[:k]) and (textof_key(L, e, z[2][1], k) == M.names + "[*].first" or at_current(L, e, simp(z[2][1]), M.names)), w, "the name of another listener is removed")
                elif n == M.subs:
                    c.ob("only-empty-list", inst, z[0] == "erase" and len(z[2]) == 2 and (textof_key(L, e, z[2][1], k) == M.subs + "[*].first" or at_current(L, e, simp(z[2][1]), M.subs)) and any(y[0] == "empty" and L.cname(e, y) == vec and truthy(t.m, t.st, y[3]) is True for y in t.ev[:k]), w, "a subscriber that still has listeners is removed")
                elif n == vec:
                    c.ob("only-own-id", inst, z[0] == "erase" and len(z[2]) == 2 and any(y[0] == "LD" and simp(y[2][0]) == simp(z[2][1]) and is_id(t, y[3]) for y in t.ev[:k]), w, "the id of another listener is taken from the list")
                elif n == M.stats:
                    c.ob("only-own-statistics", inst, z[0] == "erase" and len(z[2]) == 2 and (is_arg_ref(L, e, z[2][1], ident, k) or found_at(L, e, M.stats, z[2][1], ident)), w, "the statistics of another listener are removed")
                    c.ob("detached-before-removed", inst, isnull(t, cont) is True or any(y[0] == "CALL" and y[1].endswith("Container::detach") for y in t.ev[:k]), w, "the statistics are removed without being detached")
            if z[0] == "CALL" and z[1].endswith("Container::detach"):
                d = L.desc(e, z[2][1], k)
                c.ob("detach-own-statistics", inst, is_arg(z[2][0], cont) and d.startswith(M.stats + "{") and d.endswith("->") and any(y[0] in ("mapat", "find", "mapget") and L.cname(e, y) == M.stats and is_arg_ref(L, e, y[2][1], ident, t.at(y)) for y in t.ev[:k]), w, "statistics of something else are detached")
        if e.kind == "iter":
            Cs = [C for C in L.cur.values() if C.header == e.header]
            for C in Cs:
                if C.cont in (M.names, vec):
                    src = ".second" if C.cont == M.names else ""
                    c.ob("search-by-id", inst, any(z[0] == "LD" and L.desc(e, z[2][0], t.at(z)) == C.cont + "[*]" + src and t.m.decide(t.st, cmpv("eq", strip(z[3]), ident)) is False for z in t.mine), w, "the search passes by an entry that may be the one to remove")
                if C.cont == M.subs:
                    took = any(z[0] == "erase" and L.cname(e, z) == vec for z in t.mine)
                    c.ob("search-by-id", inst, took or bool(runs(L, e, vec)), w, "the list of a subscriber is not searched to its end")
        else:
            size = [z for z in t.ev if z[0] == "size" and L.cname(e, z) == M.fns]
            valid = None
            for z in size:
                for q, want in ((cmpv("ult", strip(ident), strip(z[3])), True), (cmpv("ule", strip(z[3]), strip(ident)), False)):
                    for a in (q,):
                        d = t.m.decide(t.st, a)
                        if d is not None:
                            valid = d is want
            if valid is None:
                valid = bounds(t, size, ident)
            gone = [z for z in t.ev if z[0] in ("f.assign", "f.swap") and (t.element(z[2][0], t.at(z)) or (None,))[0] == "at"]
            if not gone:
                c.ob("valid-id-removed", inst, valid is False, w, "the callback of a registered listener stays")
                continue
            dropped += 1
            c.ob("callback-dropped", inst, len(gone) == 1 and L.cname(e, t.element(gone[0][2][0], t.at(gone[0]))[3]) == M.fns and equal(t, t.element(gone[0][2][0], t.at(gone[0]))[3][2][1], ident) and L.desc(e, gone[0][2][1], t.at(gone[0])) == "null", w, "the callback of another listener is dropped, or it is not dropped")
            c.ob("index-checked", inst, valid is True, w, "an id is used as index without being checked against the number of listeners")
            nm = any(z[0] == "erase" and L.cname(e, z) == M.names for z in t.ev)
            c.ob("name-removed", inst, nm or bool(runs(L, e, M.names)), w, "the name of a removed listener stays registered")
            c.ob("unsubscribed", inst, any(z[0] == "erase" and L.cname(e, z) == vec for z in t.ev) or bool(runs(L, e, M.subs)), w, "the id of a removed listener stays in the list of its subscriber")
            if nm and isnull(t, cont) is not True:
                has = found_id(L, e, M.stats, ident)
                det = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("Container::detach")]
                c.ob("statistics-detached", inst, has is False or len(det) == 1, w, "the statistics of a removed listener stay attached to the container")
    c.ob("removes", inst, dropped > 0, f.here(), "nothing is ever removed")


def bounds(t, size, ident):
    for z in size:
        n = simp(z[3])
        for x in t.fn.insts:
            pass
        for i in (("cast", "zext", 64, ident), ("ext", ident, 64)):
            for q, want in ((cmpv("ult", i, n), True), (cmpv("ule", n, i), False), (cmpv("eq", n, i), False)):
                d = t.m.decide(t.st, q)
                if d is not None:
                    return d is want
    return None


def textof_key(L, e, v, k):
    """name of a string operand, through local copies"""
    x = L.text(e, v, k)
    return x[0][1] if len(x) == 1 and x[0][0] == "ld" else None


def is_arg_ref(L, e, v, a, k):
    """is the operand a reference to a variable that holds the argument?"""
    t = L.of(e)
    h = held(L, e, v, k)
    if h is not None:
        return equal(t, h, a)
    return any(y[0] == "LD" and ptr(simp(y[2][0])) == ptr(simp(v)) and equal(t, y[3], a) for y in t.ev) or t.fn.argname(a[1]) == L.desc(e, v, k)


def found_id(L, e, cont, a):
    """is the number known to be a key of the map on this path?"""
    t = L.of(e)
    r = None
    for y in t.ev:
        if y[0] == "find" and L.cname(e, y) == cont and is_arg_ref(L, e, y[2][1], a, t.at(y)):
            for z in t.ev:
                if z[0] == "end" and L.cname(e, z) == cont:
                    d = t.m.decide(t.st, cmpv("eq", simp(y[3]), simp(z[3])))
                    if d is not None:
                        r = not d
        if y[0] == "count" and L.cname(e, y) == cont and is_arg_ref(L, e, y[2][1], a, t.at(y)):
            d = truthy(t.m, t.st, y[3])
            r = d if d is not None else r
    return r


def found_at(L, e, cont, v, a):
    t = L.of(e)
    return any(y[0] == "find" and L.cname(e, y) == cont and simp(y[3]) == simp(v) and is_arg_ref(L, e, y[2][1], a, t.at(y)) for y in t.ev)


def lookup_stats(c, p, cls, M):
    f = method(c, p, cls, "getListenerStats")
    L, ends, m = ways(c, f)
    idn = AN(f, 1)
    inst = cls + "::getListenerStats"
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        r = result(L, e)
        has = found(L, e, M.stats, (("ld", idn),))
        if r == "null":
            c.ob("none-only-if-unknown", inst, has is False, w, "no statistics are returned although the listener has some")
        else:
            c.ob("own-statistics", inst, r == "%s{%s}" % (M.stats, idn), w, "the statistics of something else are returned: %s" % r)
            c.ob("looked-up", inst, has is True, w, "asking for statistics adds an entry")


def single_on(c, p, S):
    f = method(c, p, SINGLE, "on")
    L, ends, m = ways(c, f)
    cont, lis, sub, cb = A(f, 1), AN(f, 2), AN(f, 3), AN(f, 4)
    inst = SINGLE + "::on"
    n = 0
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        on = flag(t, L, e, S.on)
        wr = [z for z in t.ev if z[0] in ("f.assign", "p.assign", "s.assign", "p.reset", "f.swap", "s.swap") and L_dst(L, e, z).startswith("this.") or z[0] == "STORE" and z[1].startswith("this.")]
        if on is True:
            c.ob("first-listener-stays", inst, not wr, w, "a second listener changes the registered one")
            continue
        c.ob("registered-looked-at", inst, on is False, w, "a listener is registered without looking whether there is one")
        n += 1
        cbs = [z for z in wr if z[0] == "f.assign" and L_dst(L, e, z) == S.cb]
        c.ob("callback-recorded", inst, len(cbs) == 1 and L.desc(e, cbs[0][2][1], t.at(cbs[0])) == cb, w, "the registered listener is not the given callback")
        c.ob("name-recorded", inst, any(z[0] == "s.assign" and L_dst(L, e, z) == "this._subscriberName" and textof_key(L, e, z[2][1], t.at(z)) == sub for z in wr), w, "the listener is registered under another name")
        wp = [z for z in wr if z[0] == "f.assign" and L_dst(L, e, z) == S.wrap]
        c.ob("wrapper-recorded", inst, len(wp) == 1, w, "the registered listener has no wrapper")
        st = [z for z in wr if z[0] == "STORE" and z[1] == S.on]
        c.ob("announced", inst, len(st) == 1 and simp(st[0][2][1])[0] == "c" and simp(st[0][2][1])[1] & 1, w, "the listener is not marked as registered")
        if st:
            c.ob("announced-last", inst, all(t.at(z) < t.at(st[0]) for z in wr if z is not st[0]), w, "the listener is announced before it is complete: an emission meanwhile uses half of it")
        c.ob("id-returned", inst, e.val is not None and simp(e.val) == ("c", 0), w, "the id of the only listener is not 0")
        none = isnull(t, cont)
        sa = [z for z in wr if z[0] == "p.assign" and L_dst(L, e, z) == S.stats]
        if none is False:
            c.ob("statistics-recorded", inst, len(sa) == 1, w, "the statistics of the listener are not recorded")
            for z in sa:
                sm = made(L, e, z[2][1], t.at(z))
                so = t.origin(z[2][1], t.at(z))[0]
                c.ob("statistics-made", inst, sm is not None and len(sm[1]) > 1 and textof(L, e, sm[1][0], t.at(sm[0])) == sub and textof(L, e, sm[1][1], t.at(sm[0])) == lis, w, "the statistics do not carry the names of the subscriber and of the listener")
                attach_ok(c, L, e, inst, cont, lambda q: same_stats(L, e, q, so) or L.desc(e, q[2][1], t.at(q)).startswith(S.stats), "attach")
        else:
            c.ob("attach-statistics", inst, not any(q[0] == "CALL" and "Container::" in q[1] for q in t.ev), w, "statistics are attached to no container")
    c.ob("registers", inst, n > 0, f.here(), "nothing is ever registered")


def L_dst(L, e, z):
    """member a copy or assignment changes (never seen through earlier copies)"""
    return L.of(e).name(z[2][0]).lstrip("&")


def single_remove(c, p, S, name):
    f = method(c, p, SINGLE, name)
    L, ends, m = ways(c, f)
    cont = A(f, 1)
    inst = SINGLE + "::" + name
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        dl = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("::removeListener")]
        if dl:
            c.ob("delegates", inst, len(dl) == 1 and len(dl[0][2]) == 3 and is_arg(dl[0][2][1], cont) and simp(dl[0][2][2]) == ("c", 0), w, "the wrong listener is removed, or from another container")
            continue
        st = [z for z in t.ev if z[0] == "STORE" and z[1] == S.on]
        other = False
        if name == "removeListener":
            d = t.m.decide(t.st, cmpv("eq", A(f, 2), ("c", 0)))
            if d is False:
                c.ob("other-id-ignored", inst, not st and not any(z[0] in ("p.reset", "f.assign") for z in t.ev), w, "an unknown id removes the listener")
                continue
            other = d is None
        c.ob("unregistered", inst, not other and len(st) == 1 and simp(st[0][2][1])[0] == "c" and not simp(st[0][2][1])[1] & 1, w, "the listener stays registered")
        cl = [z for z in t.ev if z[0] in ("p.reset", "p.assign") and L_dst(L, e, z) == S.stats]
        c.ob("statistics-dropped", inst, len(cl) == 1, w, "the statistics of the removed listener stay")
        none = loaded_null(L, e, S.stats, 0, t.at(cl[0]) if cl else None)
        zs = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("Container::detach")]
        if isnull(t, cont) is True or none is True:
            c.ob("detach-statistics", inst, not zs, w, "missing statistics are detached, or from no container")
        elif isnull(t, cont) is False and none is False:
            c.ob("detach-statistics", inst, len(zs) == 1 and (not cl or t.at(zs[0]) < t.at(cl[0])) and is_arg(zs[0][2][0], cont) and L.desc(e, zs[0][2][1], t.at(zs[0])).startswith(S.stats), w, "the statistics of the removed listener stay attached to the container")
        else:
            c.ob("detach-statistics", inst, not zs, w, "statistics are detached without looking whether there are any")
        if st and cl:
            c.ob("silenced-first", inst, t.at(st[0]) < t.at(cl[0]), w, "the statistics go while the listener is still registered")


def single_stats(c, p, S):
    f = method(c, p, SINGLE, "getListenerStats")
    L, ends, m = ways(c, f)
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        r = result(L, e)
        d = None
        for y in t.ev:
            if y[0] == "LD" and is_arg(y[2][0], A(f, 1)):
                q = t.m.decide(t.st, cmpv("eq", strip(y[3]), ("c", 0)))
                d = q if q is not None else d
        c.ob("own-statistics", SINGLE + "::getListenerStats", (r == S.stats and d is True) or (r == "null" and d is False), w, "the statistics of another listener are returned")


# --------------------------------------------------------------- E04
@prop("E04", "path-sensitive lock replay over the safe emitter",
      "Every access to the register and the id counter on every path of every method, exception paths included; std::mutex is trusted.")
def e04(c):
    p = prog(c)
    S = Safe(c, p)
    c.assumption("std::mutex and std::lock_guard follow the standard; map iterators are only used to reach the register")
    acc = 0
    for f in p.fns.values():
        short = f.sq.rsplit("::", 1)[1]
        if not f.sq.startswith(SAFE + "::") or "(anon)" in f.sq or short.endswith("SafeEventEmitter") or f.sq.count("::") > 2 or internal(p, f):
            continue
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            pr = []
            rp, hold = replay(e, pr)
            for b in pr:
                c.ob("lock-discipline", short, False, w, b[1] if b[1] != "nested" else "two locks are held at once")
            if e.kind == "iter":
                c.ob("loop-keeps-lock", short, sorted(hold) == sorted(pre_held(e)), w, "a turn of a loop changes what is locked")
            elif e.kind in ("ret", "throw", "exc"):
                c.ob("released-on-exit", short, not hold, w, "%s is still locked when the method is left" % ", ".join(hold))
            for y, h in zip(t.mine, (x[1] for x in rp)):
                what = None
                if y[0] in ("LOOP", "LOCK", "UNLOCK", "TRY", "WAIT", "NOTIFY") or not y[2]:
                    continue
                if y in calls(t) or y[0] == "CALL" and y[1].endswith("::operator()"):
                    c.ob("called-unlocked", short, not h, w, "a listener is called while %s is locked: it cannot use the emitter" % ", ".join(h))
                    continue
                if y[0] in ("LD", "STORE"):
                    what = raw(t, e, L, y, S)
                elif not y[0].startswith(("s.", "p.", "f.")) and y[0] != "CALL":
                    n = t.name(y[2][0]).lstrip("&")
                    what = S.map if n == S.map else None
                elif y[0] == "CALL" and "_Rb_tree_" in y[1]:
                    what = S.map
                elif y[0] in ("p.ctor", "p.assign", "s.ctor", "s.assign") and len(y[2]) > 1 and through_register(L, e, y[2][1], S):
                    what = S.map
                if what:
                    acc += 1
                    c.ob("guarded", short, S.mutex in h, w, "%s is used without holding the mutex" % what[5:])
    c.ob("accesses", SAFE, acc > 0, "", "no access to the register was found")


def internal(p, f):
    """a helper that only runs inlined in its callers"""
    return f.sq.rsplit("::", 1)[1] not in ("on", "once", "emitEvent", "discardEvent", "removeListener", "removeAllListeners", "getListenerStats")


def pre_held(e):
    held = []
    for z in e.pre:
        if z[0] == "LOCK":
            held.append(z[1])
        elif z[0] == "UNLOCK" and z[1] in held:
            held.remove(z[1])
    return held


def raw(t, e, L, y, S):
    """the guarded object a plain load or store reaches, if any"""
    a = simp(y[2][0])
    n = t.name(a).lstrip("&")
    if n == S.next:
        return S.next
    return S.map if through_register(L, e, a, S, direct=True) else None


def through_register(L, e, v, S, direct=False):
    """does the address lie in a record of the register (not behind a pointer copied out of it)?"""
    t = L.of(e)
    b = ptr(simp(v))[0]
    for C in L.cur.values():
        if C.cont != S.map and not C.cont.startswith(S.map + "{"):
            continue
        q = (e.phis or {}).get(C.phi, (None, None))[0] if e.header == C.header else t.st.env.get(C.phi)
        if q is not None and simp(q) == b:
            return True
    return False


# --------------------------------------------------------------- E05
@prop("E05", "path-sensitive analysis of statistics: brackets around the call, waiting time, discards per listener",
      "All paths of the wrappers and of discardEvent of the three emitters; any register and time.")
def e05(c):
    p = prog(c)
    S = Safe(c, p)
    o = layout(c, p, "kpsr::SubscriptionStats")
    c.need("totalDiscardedEvents" in o and "totalEnqueuedTimeInNs" in o, "SubscriptionStats has changed")
    WAIT, DISC = o["totalEnqueuedTimeInNs"], o["totalDiscardedEvents"]
    n = 0
    for f in p.fns.values():
        if f.sq.endswith("ListenerWithStats::runCallback"):
            n += measured(c, f, "ListenerWithStats", WAIT, A(f, 2))
        elif re.match(r"kpsr::Unsafe\w+EventEmitter::on::\(anon\)::operator\(\)$", f.sq):
            n += measured(c, f, f.sq.split("::")[1] + " wrapper", WAIT, A(f, 2))
    c.ob("measured", "wrappers", n >= 3, "", "not every emitter measures its listeners")
    # discards: safe
    f = method(c, p, SAFE, "discardEvent")
    L, ends, m = ways(c, f)
    sub = AN(f, 1)
    heads = {}
    for e in ends:
        if e.kind == "iter" and counted(L, e, DISC):
            heads[e.header] = safe_turns(L, e, S)
    c.ob("discards-counted", SAFE, bool(heads) and all(heads.values()), f.here(), "no loop over the listeners of the name counts the discard")
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "iter":
            C = heads.get(e.header)
            n = counted(L, e, DISC)
            if C is None:
                c.ob("discards-counted", SAFE, not n, w, "a discard is counted elsewhere")
                continue
            count_turn(c, L, e, SAFE, n, C.cont + "[*]" + S.stats, w)
            c.ob("whole-list", SAFE, C.whole, w, "the loop does not walk over all listeners")
        elif e.kind == "ret":
            for C in heads.values():
                if C is not None:
                    c.ob("all-turns", SAFE, L.entered(e, C) and L.finished(e, C), w, "not every listener of the name is told about the discard")
                    src = [y for y in t.ev if y[0] in ("begin", "data") and L.cname(e, y) == C.cont]
                    c.ob("snapshot", SAFE, C.cont.startswith("this.") or snapshot(L, e, S, C.cont, sub, t.at(src[-1]) if src else len(t.ev)), w, "what counts the discard is not the list of all listeners registered under the name")
    # discards: multi
    M = Multi(c, p)
    f = method(c, p, MULTI, "discardEvent")
    L, ends, m = ways(c, f)
    sub = AN(f, 1)
    ids = "%s{%s}" % (M.subs, sub)
    loops = [C for C in L.cur.values() if C.cont == ids]
    c.ob("discards-counted", MULTI, bool(loops), f.here(), "no loop over the listeners of the name")
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "iter":
            n = counted(L, e, DISC)
            mine = [C for C in loops if C.header == e.header]
            if not mine:
                c.ob("discards-counted", MULTI, not n, w, "a discard is counted elsewhere")
                continue
            has = None
            for y in t.mine:
                if y[0] in ("find", "count") and L.cname(e, y) == M.stats and L.desc(e, y[2][1], t.at(y)) == ids + "[*]":
                    if y[0] == "count":
                        has = truthy(t.m, t.st, y[3])
                    else:
                        for z in t.ev:
                            if z[0] == "end" and L.cname(e, z) == M.stats:
                                d = t.m.decide(t.st, cmpv("eq", simp(y[3]), simp(z[3])))
                                has = (not d) if d is not None else has
            c.ob("whole-list", MULTI, all(C.whole for C in mine), w, "the loop does not walk over all listeners")
            c.ob("one-discard-each", MULTI, len(n) == 1 if has else not n and has is False, w, "a discard is counted %d times for a listener" % len(n))
            for z in n:
                c.ob("own-discards", MULTI, of_element(L, e, z, M.stats, ids + "[*]"), w, "the discard is counted for another listener")
        elif e.kind == "ret":
            none = found(L, e, M.subs, (("ld", sub),)) is False
            c.ob("all-turns", MULTI, none or any(L.entered(e, C) and L.finished(e, C) for C in loops), w, "not every listener of the name is told about the discard")
    # counting a discard changes nothing else
    for cls, regs in ((SAFE, (S.map,)), (MULTI, (M.fns, M.names, M.stats, M.subs))):
        f = method(c, p, cls, "discardEvent")
        L, ends, m = ways(c, f)
        for e in ends:
            t = L.of(e)
            for z in t.mine:
                if z[0] in ("erase", "clear", "swap", "assign", "push", "pop", "insert", "insert-at", "extract", "resize") and z[2]:
                    c.ob("register-unchanged", cls, L.cname(e, z) not in regs and not L.cname(e, z).startswith(tuple(r + "{" for r in regs)), f.where(f.insts[z[4]]), "a discard changes the register of listeners")
    # discards: single
    S1 = Single(c, p)
    f = method(c, p, SINGLE, "discardEvent")
    L, ends, m = ways(c, f)
    sub = AN(f, 1)
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind != "ret":
            continue
        n = counted(L, e, DISC, t.ev)
        eq, none = named(L, e, sub), loaded_null(L, e, S1.stats)
        if n:
            c.ob("one-discard-each", SINGLE, len(n) == 1 and eq is True and none is False, w, "a discard is counted for another name, without statistics or repeatedly")
            c.ob("own-discards", SINGLE, all(behind(L, e, z[2][0], t.at(z)) == S1.stats for z in n), w, "the discard is counted elsewhere")
        else:
            c.ob("discards-counted", SINGLE, eq is False or none is True, w, "a discard of the listener's name is not counted")


def behind(L, e, a, k):
    """where the pointer is kept that the address goes through"""
    b = ptr(simp(a))[0]
    return L.desc(e, mkp(b[1], b[2], b[3]), k) if b[0] == "ld" else None


def counted(L, e, off, evs=None):
    """stores that add one to the counter at that offset of a statistics object"""
    t = L.of(e)
    o = []
    for z in t.mine if evs is None else evs:
        if z[0] == "STORE" and ptr(z[2][0])[0][0] == "ld" and ptr(z[2][0])[1] == off:
            o.append(z)
    return o


def adds(t, z):
    """what a store adds to the value that was there, as a linear form, or None"""
    for y in t.ev[:t.at(z)]:
        if y[0] == "LD" and ptr(simp(y[2][0])) == ptr(z[2][0]):
            d = lsum(linv(strip(z[2][1])), linv(strip(y[3])), -1)
            return d
    return None


def count_turn(c, L, e, inst, n, d, w):
    t = L.of(e)
    none = loaded_null(L, e, d, len(e.pre))
    for z in n:
        if behind(L, e, z[2][0], t.at(z)) != d:
            c.ob("own-discards", inst, False, w, "the discard is counted for another listener")
        a = adds(t, z)
        c.ob("one-discard-each", inst, a is not None and not a[0] and a[1] == 1, w, "a discard is not counted as one")
    c.ob("one-discard-each", inst, len(n) == 1 if none is False else not n and none is True, w, "a discard is counted %d times for a listener, or without looking whether it has statistics" % len(n))


def of_element(L, e, z, cont, key):
    t = L.of(e)
    d = behind(L, e, z[2][0], t.at(z))
    a = adds(t, z)
    return d == "%s{%s}" % (cont, key) and a is not None and not a[0] and a[1] == 1


def measured(c, f, n, WAIT, enq):
    """a wrapper with statistics: start, then the call, then stop; the waiting time is added if there is one"""
    L, ends, m = ways(c, f)
    if not any(z[0] == "CALL" and z[1].endswith("ProcessMeasure") for e in ends for z in L.of(e).ev):
        c.ob("measured-or-plain", n, not any(counted(L, e, WAIT, L.of(e).ev) for e in ends), f.here(), "")
        return 0
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        cs = calls(t, t.ev)
        a = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("::startProcessMeasure")]
        b = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("::stopProcessMeasure")]
        c.ob("bracketed", n, len(a) == 1 and len(b) == 1 and len(cs) == 1 and t.at(a[0]) < t.at(cs[0]) < t.at(b[0]), w, "the time measured is not exactly the time of the call")
        for z in a + b:
            c.ob("own-statistics", n, L.desc(e, z[2][0], t.at(z)).startswith("this."), w, "the time is measured for something else")
        st = counted(L, e, WAIT, t.ev)
        pos = None
        for q, want in ((cmpv("ult", ("c", 0), enq), True), (cmpv("eq", enq, ("c", 0)), False)):
            d = m.decide(e.st, q)
            if d is not None:
                pos = d is want
        if st:
            now = [z for z in t.ev if z[0] == "CALL" and "getCurrentNanoseconds" in z[1]]
            d = adds(t, st[0])
            want = lsum(linv(simp(now[0][3])), linv(enq), -1) if now else None
            c.ob("waiting-time-added", n, len(st) == 1 and pos is True and d is not None and d == want and (not cs or t.at(now[0]) < t.at(cs[0])), w, "what is added to the waiting time is not the time since the event was enqueued")
        else:
            c.ob("waiting-time-added", n, pos is False, w, "the waiting time of an enqueued event is not counted")
    return 1


# --------------------------------------------------------------- E07
def delegated(t, evs, name):
    return [z for z in evs if z[0] == "CALL" and re.search(r"EventEmitter\w*(<.*>)?\s*::%s$" % name, z[1])]


@prop("E07", "path-sensitive analysis of the subscriber: delegation to its emitter, empty callbacks, the map of ids",
      "All paths of every method of EventEmitterSubscriber; any emitter, names and callbacks.")
def e07(c):
    p = prog(c, (re.escape(SUB) + r"<.*>", r"^%s::" % SUB))
    m0 = members(c, p, SUB, {"emitter": r"shared_ptr<kpsr::EventEmitterInterface", "ids": r"(unordered_)?map<"})
    EM, IDS = m0["emitter"], m0["ids"]
    NAME, CONT = "this.name", "this.container"

    def own(L, e, z):
        d = L.desc(e, z[2][1 if sret(L.fn, z) else 0], L.of(e).at(z))
        return d.startswith(EM) or behind(L, e, z[2][1 if sret(L.fn, z) else 0], L.of(e).at(z)) == EM or through_get(L, e, z, EM)

    def is_cont(L, e, v, k):
        return valdesc(L, e, v, k) == CONT

    for name, meth, once in (("registerListenerOnce", "once", True), ("registerSharedPtrListenerOnce", "once", True), ("registerListener", "on", False), ("registerSharedPtrListener", "on", False)):
        f = method(c, p, SUB, name)
        L, ends, m = ways(c, f)
        cb = AN(f, 1 if once else 2)
        inst = name
        n = 0
        for e in ends:
            t, w = L.of(e), where(f, e)
            if e.kind == "iter":
                c.ob("registered-once", inst, not delegated(t, t.mine, meth), w, "a listener is registered in a loop")
            empty = given(L, e, cb)
            ds = delegated(t, t.ev, "(on|once)")
            if e.kind == "throw" and any(z[0] == "THROW" for z in t.ev):
                c.ob("empty-refused", inst, empty is False and not ds and any("invalid_argument" in str(z[1]) for z in t.ev if z[0] == "THROW"), w, "a usable callback is refused, or an empty one registered first")
            if e.kind != "ret":
                continue
            n += 1
            c.ob("empty-refused", inst, empty is True, w, "an empty callback is registered")
            c.ob("registered-once", inst, len(ds) == 1 and ds[0][1].endswith("::" + meth), w, "the listener is not registered exactly once, by %s" % meth)
            if len(ds) != 1:
                continue
            z = ds[0]
            k = t.at(z)
            a = z[2]
            c.ob("own-emitter", inst, own(L, e, z), w, "the listener is registered elsewhere")
            want = ["?", NAME, "?"] if once else ["?", CONT, AN(f, 1), NAME, "?"]
            ok = len(a) == len(want)
            if ok:
                for i, x in enumerate(want):
                    if x == CONT:
                        c.ob("container-passed", inst, is_cont(L, e, a[i], k), w, "the emitter does not get the container of the subscriber")
                    elif x == NAME:
                        c.ob("own-name", inst, textof_key(L, e, a[i], k) == NAME, w, "the listener is registered under another name than that of the subscriber")
                    elif x != "?":
                        c.ob("listener-name", inst, textof_key(L, e, a[i], k) == x, w, "the emitter does not get the name of the listener")
                c.ob("callback-passed", inst, wraps(L, e, a[-1], k, cb), w, "what is registered does not call the given listener")
            else:
                c.ob("delegates", inst, False, w, "unexpected operands")
            if not once:
                ps = list(puts(L, e, IDS))
                c.ob("id-kept", inst, len(ps) == 1 and ps[0][0] == AN(f, 1) and equal(t, putval(L, e, ps[0][1], t.at(ps[0][2])), z[3]) and t.at(ps[0][2]) > k, w, "the id of the listener is not kept under its name")
            else:
                c.ob("id-kept", inst, not list(puts(L, e, IDS)), w, "a one-time listener changes the list of the others")
        c.ob("registers", inst, n > 0, f.here(), "nothing is ever registered")
    for f in p.fns.values():
        if re.match(re.escape(SUB) + r"::register\w+::\(anon\)::operator\(\)$", f.sq):
            L, ends, m = ways(c, f)
            inst = f.sq.split("::")[2] + " wrapper"
            for e in ends:
                t, w = L.of(e), where(f, e)
                if e.kind == "iter":
                    c.ob("wrapper-calls-once", inst, not calls(t), w, "a wrapper calls its listener in a loop")
                if e.kind != "ret":
                    continue
                cs = calls(t, t.ev)
                c.ob("wrapper-calls-once", inst, len(cs) == 1, w, "the listener is called %d times for one event" % len(cs))
                for z in cs:
                    v = simp(z[2][1]) if len(z[2]) > 1 else ("c", 0)
                    c.ob("wrapper-passes-event", inst, v[0] == "ld" and ptr(mkp(v[1], v[2], v[3])) == (A(f, 1), 0, ()) or any(y[0] in ("p.get", "p.operator*", "p.operator->") and y[3] is not None and simp(y[3]) == v and is_arg(y[2][0], A(f, 1)) for y in t.ev), w, "the listener gets something else than the event")
    f = method(c, p, SUB, "removeListener")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind != "ret":
            continue
        ds = delegated(t, t.ev, r"(removeListener|removeAllListeners)")
        er = [z for z in t.ev if z[0] in ("erase", "clear") and L.cname(e, z) == IDS]
        has = found(L, e, IDS, (("ld", AN(f, 1)),))
        if has is False:
            c.ob("unknown-ignored", "removeListener", not ds and not er, w, "an unknown name removes a listener")
            continue
        c.ob("removed-by-own-id", "removeListener", has is True and len(ds) == 1 and ds[0][1].endswith("::removeListener") and own(L, e, ds[0]) and is_cont(L, e, ds[0][2][1], t.at(ds[0])) and valdesc(L, e, ds[0][2][2], t.at(ds[0])) == "%s{%s}" % (IDS, AN(f, 1)), w, "the emitter is not told to remove exactly the listener of the name")
        c.ob("name-forgotten", "removeListener", len(er) == 1 and er[0][0] == "erase" and len(er[0][2]) == 2 and (textof_key(L, e, er[0][2][1], t.at(er[0])) == AN(f, 1) or any(y[0] == "find" and simp(y[3]) == simp(er[0][2][1]) for y in t.ev)), w, "the name of a removed listener stays known, or another one is forgotten")
    f = method(c, p, SUB, "getSubscriptionStats")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind != "ret":
            continue
        ds = delegated(t, t.ev, "getListenerStats")
        has = found(L, e, IDS, (("ld", AN(f, 1)),))
        if has is False:
            c.ob("unknown-name", "getSubscriptionStats", result(L, e) == "null" and not ds, w, "statistics of something are returned for an unknown name")
            continue
        c.ob("not-inserted", "getSubscriptionStats", has is True and not [z for z in t.ev if z[0] in ("insert",) and L.cname(e, z) == IDS], w, "asking for statistics makes a name known, with the id of another listener")
        c.ob("own-statistics", "getSubscriptionStats", len(ds) == 1 and own(L, e, ds[0]) and (L.desc(e, ds[0][2][-1], t.at(ds[0])) == "%s{%s}" % (IDS, AN(f, 1)) or valdesc(L, e, num_at(L, e, ds[0][2][-1], t.at(ds[0])) or ("c", 0)) == "%s{%s}" % (IDS, AN(f, 1))) and simp(ds[0][2][0]) == ("arg", 0), w, "the statistics of another listener are returned")
    k = 0
    for f in p.fns.values():
        if f.sq == SUB + "::~" + SUB.rsplit("::", 1)[1]:
            k += 1
            L, ends, m = ways(c, f)
            for e in ends:
                if e.kind != "ret":
                    continue
                t, w = L.of(e), where(f, e)
                ds = delegated(t, t.ev, "removeAllListeners")
                c.ob("all-removed-at-end", "~" + SUB[6:], len(ds) == 1 and own(L, e, ds[0]) and is_cont(L, e, ds[0][2][1], t.at(ds[0])), w, "the listeners of a destroyed subscriber stay registered")
    c.ob("all-removed-at-end", SUB[6:], k > 0, "", "the subscriber has no destructor")


def sret(f, z):
    return bool(f.insts[z[4]].get("sret"))


def through_get(L, e, z, d):
    t = L.of(e)
    v = simp(z[2][1 if sret(L.fn, z) else 0])
    return any(y[0] in ("p.get", "p.operator->", "p.operator*") and y[3] is not None and simp(y[3]) == v and L.desc(e, y[2][0], t.at(y)) == d for y in t.ev)


def given(L, e, cb):
    """is the function object known to hold a target?"""
    t = L.of(e)
    r = None
    for y in t.ev:
        if y[0] in ("f.operator bool", "f._M_empty") and L.desc(e, y[2][0], t.at(y)) == cb:
            d = truthy(t.m, t.st, y[3])
            if d is not None:
                r = d if y[0] == "f.operator bool" else not d
        if y[0] == "CALL" and re.search(r"std::operator[=!]=$", y[1]) and y[2] and L.desc(e, y[2][0], t.at(y)) == cb:
            d = truthy(t.m, t.st, y[3])
            if d is not None:
                r = d if "!=" in y[1] else not d
    return r
