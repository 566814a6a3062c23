"""State machine: gating, transitions, observers, construction, listener actions."""
import os
import re

from ..build import VERIF
from ..cont import KEEP, Loops, cev, changes, found, isempty, runs
from ..core import prop
from ..sem import cmpv, ptr, simp, truthy, walk
from ..sym import mkp

NS = "kpsr::fsm::"
SM = NS + "StateMachineImpl"
LS = NS + "StateMachineListener"
SRC = "state_machine/modules/state_machine/src"
JS = "state_machine/modules/json_conf/src"


def prog(c, keep=(), roots=(r"kpsr::fsm::.*",), unit=None):
    src = unit or c.unity([SRC], "")
    return c.program(src, list(roots), keep=list(keep), libkeep=KEEP)


NOTHROW = re.compile(r"^std::(__cxx11::|__shared|shared_ptr|vector|queue|unordered_map|_|function::function|function::operator=|make_shared|allocat)|^operator|^llvm")


def thr(x):
    """user code and the interfaces may throw; memory exhaustion is left out"""
    return not NOTHROW.search(x.callee or "")


def ways(c, f, fields=r"^this\._[A-Za-z]\w*$", sticky=None, **kw):
    c.analysed(f)
    ends, m = walk(f, cev(fields=fields, loads=True), throws=thr, sticky=changes(sticky), **kw)
    ends = [e for e in ends if e.kind != "stop" and not (e.x is not None and e.x.op == "unreachable")]
    c.count("paths", len(ends))
    return Loops(ends, f), ends, m


def where(f, e):
    return f.where(e.x) if e.x is not None else f.here()


def started(L, e):
    t = L.of(e)
    r = None
    for y in t.ev:
        if y[0] == "LD" and y[1] == "this._started":
            d = truthy(t.m, t.st, y[3])
            r = d if d is not None else r
    return r


def one(c, p, q):
    l = p.find(q)
    c.need(l, "%s is gone" % q)
    return l[0]


MOVES = ("s.assign", "s.append", "s.clear", "s.swap", "s.resize", "s.erase")
QUEUE = "this._eventQueue"
CUR = "this._currentStateId"
ACTS = ("push", "pop", "f.call", "s.assign", "s.append", "mapat", "assign", "clear", "ctor")


def isq(L, e, y):
    return L.cname(e, y).startswith(QUEUE)


def current_state(L, e, k):
    """the text of the current state before event k"""
    t = L.of(e)
    off = None
    for y in t.ev:
        for q in y[2]:
            if q[0] in ("p", "arg") and t.name(q).lstrip("&") == CUR:
                off = q
    return L.text(e, off, k) if off is not None else (("ld", CUR),)


def entered_state(L, e, k=None):
    """was the current state changed on the path (before event k)?"""
    t = L.of(e)
    for y in t.ev if k is None else t.ev[:k]:
        if y[0] in MOVES and y[1] == CUR:
            return True
        if y[0] == "LOOP" and any(isinstance(q, tuple) and t.name(q[1]).lstrip("&") == CUR for q in y[3]):
            return True
    return False


def notifications(c, f, L, ends, name, flag):
    """the cursors over the observers that notify, after checking every notification"""
    cs = set()
    for e in ends:
        t, w = L.of(e), where(f, e)
        calls = [y for y in t.mine if y[0] == "f.call"]
        if e.kind == "iter" or calls:
            for y in calls:
                k = t.at(y)
                cu = L.current(e, y[2][0], k)
                c.ob("notifies-each-observer", name, cu is not None and cu.cont == "this._observers", f.where(f.insts[y[4]]), "something other than the current observer of the walk is called")
                if cu is None:
                    continue
                if e.kind == "iter" and cu.header == e.header:
                    cs.add(cu)
                x = L.text(e, y[2][1], k) if len(y[2]) > 1 else ()
                c.ob("names-current-state", name, x == (("ld", "this._id"), ("lit", ":")) + tuple(current_state(L, e, k)), f.where(f.insts[y[4]]), "an observer is not told \"machine:current state\"")
                want = flag(L, e, k)
                got = truthy(t.m, t.st, y[2][2]) if len(y[2]) > 2 else None
                if got is None and len(y[2]) > 2:
                    # the flag as passed: an i1 variable
                    got = t.m.decide(t.st, cmpv("ne", y[2][2], ("c", 0)))
                c.ob("says-whether-changed", name, got is not None and got == want, f.where(f.insts[y[4]]), "an observer is told %s although the state was %schanged" % (got, "" if want else "not "))
                c.ob("survives-changes-to-the-list", name, ptr(cu.src[1][2][0])[0][0] == "al", f.where(f.insts[y[4]]), "the list itself is walked while observers may change it")
            if e.kind == "iter" and calls:
                c.ob("notifies-once", name, len(calls) == 1, w, "an observer is called more than once")
        if e.kind == "ret":
            c.ob("notifies-each-observer", name, not [y for y in t.mine if y[0] == "f.call"], w, "the walk over the observers ends early")
    for cu in cs:
        c.ob("notifies-each-observer", name, cu.whole, f.here(), "not every observer is visited")
        for e in ends:
            if e.kind == "iter" and e.header == cu.header:
                t = L.of(e)
                c.ob("notifies-each-observer", name, any(y[0] == "f.call" for y in t.mine), where(f, e), "an observer is passed over")
    return cs


def told(L, e, cs):
    """how many complete walks over the observers the path has made"""
    return sum(1 for cu in cs if L.entered(e, cu) and L.finished(e, cu)), sum(1 for cu in cs if L.entered(e, cu))


@prop("F01", "path-sensitive effect analysis of the state machine's control operations over container and string models",
      "Every path of start, stop, reset, enqueueEvent, enqueueAndUpdate and of update while stopped; user callbacks are opaque.")
def f01(c):
    p = prog(c)
    f = one(c, p, SM + "::start")
    L, ends, m = ways(c, f)
    cs = notifications(c, f, L, ends, "start", lambda L, e, k: True)
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "iter":
            continue
        st = [y for y in t.ev if y[0] == "ST" and y[1] == "this._started"]
        c.ob("start-starts", "start", bool(st) and truthy(m, e.st, st[-1][2][0]) is True, w, "the machine does not run after start()")
        c.ob("start-keeps-state", "start", not entered_state(L, e), w, "start() changes the state")
        c.ob("start-keeps-events", "start", not any(y[0] in ("push", "pop", "clear") and isq(L, e, y) for y in t.ev), w, "start() changes the event queue")
        if e.kind == "ret":
            done, ent = told(L, e, cs) if cs else (0, 0)
            # without any loop over observers nothing is told
            c.ob("start-tells", "start", done == 1 or (not cs and False), w, "observers are not told the state once at start")
        order = [y[0] for y in t.ev if y[0] == "f.call" or y in st]
        c.ob("start-before-telling", "start", "f.call" not in order or order[0] == "ST", w, "an observer is called before the machine runs")
    f = one(c, p, SM + "::stop")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        st = [y for y in t.ev if y[0] == "ST" and y[1] == "this._started"]
        c.ob("stop-stops", "stop", e.kind != "ret" or bool(st) and truthy(m, e.st, st[-1][2][0]) is False, w, "the machine still runs after stop()")
        c.ob("stop-keeps-state", "stop", not entered_state(L, e) and not any(y[0] == "f.call" for y in t.ev), w, "stop() changes the state or calls observers")
    f = one(c, p, SM + "::reset")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        st = [y for y in t.ev if y[0] == "ST" and y[1] == "this._started"]
        via = [y for y in t.ev if y[0] == "CALL" and re.search(r"StateMachine(Impl)?::stop$", y[1])]
        c.ob("reset-stops", "reset", e.kind != "ret" or bool(st) and truthy(m, e.st, st[-1][2][0]) is False or not st and bool(via), w, "the machine still runs after reset()")
        a = [y for y in t.ev if y[0] == "s.assign" and y[1] == CUR]
        c.ob("reset-returns-to-start", "reset", e.kind != "ret" or len(a) >= 1 and L.text(e, a[-1][2][1], t.at(a[-1])) == (("ld", "this._initialStateId"),) and not any(y[0].startswith("s.") and y[1] == "this._initialStateId" and y[0] in ("s.assign", "s.append", "s.clear", "s.swap") for y in t.ev), w,
             "the current state after reset() is not the initial one")
    f = one(c, p, SM + "::enqueueEvent")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        s = started(L, e)
        ps = [y for y in t.ev if y[0] == "push" and isq(L, e, y)]
        c.ob("no-event-while-stopped", "enqueueEvent", not ps or s is True, w, "an event is queued although the machine is stopped")
        c.ob("event-queued-once", "enqueueEvent", s is not True or e.kind != "ret" or (len(ps) == 1 and L.text(e, ps[0][2][1], t.at(ps[0])) == (("ld", f.argname(1)),)), w, "the event is not queued exactly once")
        c.ob("events-kept", "enqueueEvent", not any(y[0] in ("pop", "clear", "assign", "swap") and isq(L, e, y) for y in t.ev), w, "queued events are dropped")
        c.ob("event-queued-once", "enqueueEvent", s is not None, w, "the running flag is not looked at")
    p2 = prog(c, keep=[SM + "::(update|enqueueEvent)"], roots=[SM + "::enqueueAndUpdate"])
    f = one(c, p2, SM + "::enqueueAndUpdate")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind != "ret":
            continue
        cl = [y for y in t.ev if y[0] == "CALL" and re.search(r"StateMachine(Impl)?::(enqueueEvent|update)$", y[1])]
        ps = [y for y in t.ev if y[0] == "push" and isq(L, e, y)]
        q = [y for y in cl if y[1].endswith("enqueueEvent")]
        u = [y for y in cl if y[1].endswith("update")]
        s = started(L, e)
        ok = len(q) == 1 and L.text(e, q[0][2][1], t.at(q[0])) == (("ld", f.argname(1)),) and not ps or not q and (s is True and len(ps) == 1 or s is False and not ps)
        c.ob("enqueue-then-update", "enqueueAndUpdate", ok and (len(u) == 1 or s is False and not u), w, "not exactly one event and one update")
        if u and (q or ps):
            c.ob("enqueue-then-update", "enqueueAndUpdate", t.at(u[0]) > t.at((q or ps)[0]), w, "the update comes before the event")
    f = one(c, p, SM + "::update")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        act = [y for y in t.ev if y[0] in ACTS and y[1] and (y[1].startswith("this.") or y[0] == "f.call")] + [y for y in t.ev if y[0] == "CALL" and "::fsm::" in y[1]]
        s = started(L, e)
        c.ob("no-update-while-stopped", "update", not act or s is True, w, "a stopped machine handles events or calls observers")


def shared(v):
    """the shared_ptr object a raw pointer was read from"""
    v = simp(v)
    return mkp(v[1], v[2]) if v[0] == "ld" and not v[3] else v


TEST, DEST, TRANS = r"::canTransition$", r"::getDestinationStateId$", r"::getTransitions$"


@prop("F02", "path-sensitive analysis of update() over container and string models: which event, which transition, which state",
      "Every path of update() for any tables, queue contents and answers of the transitions.")
def f02(c):
    p = prog(c)
    f = one(c, p, SM + "::update")

    def done(m, st, evs):
        for y in evs:
            if y[0] == "CALL" and re.search(TEST, y[1]):
                yield "asked"
                if truthy(m, st, y[3]) is True:
                    yield "yes"
            elif y[0] == "pop" and y[1] and y[1].startswith(QUEUE):
                yield "pop"
            elif y[0] in MOVES and y[1] == CUR:
                yield "moved"
    L, ends, m = ways(c, f, sticky=done)
    n = "update"
    seen = False
    lists = {}

    def transitions(cu):
        """the call that made the list a cursor walks over"""
        if cu not in lists:
            raw, se = cu.src[1][2][0], cu.src[0]
            t = L.of(se)
            o, _ = t.origin(raw, t.at(cu.src[1]))
            z = [z for z in t.ev if z[0] == "CALL" and re.search(TRANS, z[1]) and z[2] and (t.same(z[2][0], raw) or t.same(z[2][0], o))]
            lists[cu] = (z[-1], L.desc(se, shared(z[-1][2][1]), t.at(z[-1]))) if z else None
        return lists[cu]
    for e in ends:
        t, w = L.of(e), where(f, e)
        at = lambda y: f.where(f.insts[y[4]])
        call = lambda rx, evs: [y for y in evs if y[0] == "CALL" and re.search(rx, y[1])]

        def has(k, what):
            """has the path done it before event k?"""
            return any(what in y[3] if y[0] == "LOOP" else what in set(done(m, e.st, (y,))) for y in t.ev[:k])
        end = len(t.ev)
        lastloop = max([t.at(y) for y in t.ev if y[0] == "LOOP"] + [-1])
        for y in t.mine:
            k = t.at(y)
            if y[0] == "pop" and isq(L, e, y):
                prev = max([t.at(z) for z in t.ev[:k] if z[0] == "pop" and isq(L, e, z)] + [-1])
                c.ob("no-event-lost", n, any(z[0] == "front" and isq(L, e, z) for z in t.ev[prev + 1:k]), at(y), "an event is removed without having been read")
                c.ob("later-events-stay", n, not has(k, "yes") or prev < 0 and not any(z[0] == "LOOP" and "yes" in z[3] and "pop" in z[3] for z in t.ev[:k]), at(y), "an event after the transition is taken")
            elif y[0] == "CALL" and re.search(TEST, y[1]):
                seen = True
                x = L.text(e, y[2][1], k)
                ok = len(x) == 1 and x[0][0] == "ld" and re.match(re.escape(QUEUE) + r".*\[front\]$", str(x[0][1]))
                # an event read in place must still be in the queue
                src, sk = t.origin(y[2][1], k)
                if ok and sk == k:
                    fr = max([t.at(q) for q in t.ev[:k] if q[0] == "front"] + [-1])
                    ok = not any(z[0] == "pop" and isq(L, e, z) or z[0] == "LOOP" and "pop" in z[3] for z in t.ev[fr + 1:k])
                c.ob("tests-first-event", n, bool(ok), at(y), "a transition is asked about something other than the oldest event")
                cu = L.current(e, shared(y[2][0]), k)
                z = transitions(cu) if cu is not None and cu.whole else None
                c.ob("tests-current-state", n, z is not None and re.match(r"this\._stateTable\{" + re.escape(CUR) + r"\}$", z[1]) is not None, at(y), "the transitions that are tested are not those of the current state, one after the other")
                c.ob("first-match-wins", n, not has(k, "yes"), at(y), "transitions are tested after one has matched")
            elif y[0] == "CALL" and re.search(TRANS, y[1]):
                got = any(z[0] == "mapget" for z in t.ev[:k])
                c.ob("unknown-state-is-safe", n, got or found(L, e, "this._stateTable", (("ld", CUR),), k) is True, at(y), "the state is used without checking that the table has it")
            elif y[0] in MOVES and y[1] == CUR:
                c.ob("at-most-one-transition", n, not has(k, "moved"), at(y), "more than one transition in one update")
                yes = [z for z in call(TEST, t.ev[:k]) if truthy(m, e.st, z[3]) is True]
                ok = bool(yes) and y[0] == "s.assign"
                if ok:
                    a, _ = t.origin(y[2][1], k)
                    z = [z for z in call(DEST, t.ev[:k]) if len(z[2]) > 1 and (t.same(z[2][0], y[2][1]) or t.same(z[2][0], a))]
                    ok = bool(z) and L.desc(e, shared(z[-1][2][1]), t.at(z[-1])) == L.desc(e, shared(yes[-1][2][0]), t.at(yes[-1]))
                c.ob("goes-to-its-destination", n, ok, at(y), "the new state is not the destination of the transition that matched")
        if e.kind == "ret":
            c.ob("goes-to-its-destination", n, not has(end, "yes") or has(end, "moved"), w, "a transition matched but the state stays")
        if e.kind == "ret" and started(L, e) is True and not has(end, "yes") and found(L, e, "this._stateTable", None) is not False:
            em = [y for y in t.ev if y[0] in ("empty", "size") and isq(L, e, y)]
            ok = bool(em) and (truthy(m, e.st, em[-1][3]) is True if em[-1][0] == "empty" else truthy(m, e.st, em[-1][3]) is False)
            c.ob("handles-all-events", n, ok and not any(y[0] == "pop" for y in t.ev[t.at(em[-1]):]), w, "update() ends without a transition although events may be left")
        pops = [y for y in t.mine if y[0] == "pop" and isq(L, e, y)]
        if e.kind == "iter":
            c.ob("no-event-lost", n, len(pops) <= 1, w, "more than one event is removed for one that is looked at")
            tests = call(TEST, t.mine)
            if tests and not pops:
                c.ob("one-transition-per-turn", n, len(tests) == 1, w, "transitions are passed over")
        if pops and e.kind in ("ret", "iter") and not has(end, "yes"):
            # this event was turned down by every transition
            ok = any(L.entered(e, cu) and L.finished(e, cu) for cu in L.cur.values() if transitions(cu))
            tr = call(TRANS, t.mine)
            if not ok and tr:
                # no transition at all: the walk was never turned
                ok = any(z[0] == "end" and any(b[0] == "begin" and t.same(b[2][0], z[2][0]) and m.decide(e.st, cmpv("eq", simp(b[3]), simp(z[3]))) for b in t.mine) for z in t.mine)
                ok = ok or any(z[0] == "size" and m.decide(e.st, cmpv("eq", simp(z[3]), ("c", 0))) for z in t.mine)
            c.ob("asks-every-transition", n, ok, w, "an event is dropped before every transition of the state was asked")
    c.ob("asks-transitions", n, seen, f.here(), "no transition is ever asked")


@prop("F03", "path-sensitive analysis of every notification over container and string models",
      "Every path of start, update, registerObserver and unregisterObservers; which observer, with which text and which flag.")
def f03(c):
    p = prog(c)
    f = one(c, p, SM + "::update")
    L, ends, m = ways(c, f)
    cs = notifications(c, f, L, ends, "update", entered_state)
    c.ob("update-tells", "update", bool(cs), f.here(), "update() does not call the observers")
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind != "ret":
            continue
        done, ent = told(L, e, cs)
        s, k = started(L, e), found(L, e, "this._stateTable")
        if s is True and k is not False:
            c.ob("update-tells-once", "update", done == 1 and ent == 1, w, "the observers are not told exactly once in an update")
        else:
            c.ob("update-tells-once", "update", ent <= 1 and (s is not False or ent == 0), w, "the observers are told by a machine that does not run")
    for e in ends:
        # no transition once the observers are being told
        t = L.of(e)
        calls = [t.at(y) for y in t.ev if y[0] == "f.call"]
        ch = [t.at(y) for y in t.ev if y[0] == "s.assign" and y[1] == CUR]
        c.ob("tells-after-transition", "update", not calls or not ch or max(ch) < min(calls), where(f, e), "an observer is called before the transition")
    f = one(c, p, SM + "::start")
    L, ends, m = ways(c, f)
    notifications(c, f, L, ends, "start", lambda L, e, k: True)
    f = one(c, p, SM + "::registerObserver")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        ps = [y for y in t.ev if y[0] in ("push", "insert-at") and y[1] == "this._observers"]
        c.ob("observer-added", "registerObserver", e.kind != "ret" or (len(ps) == 1 and ps[0][0] == "push" and L.desc(e, ps[0][2][1], t.at(ps[0])) == f.argname(1)), w, "the observer is not added once at the end")
        c.ob("observers-kept", "registerObserver", not any(y[0] in ("clear", "pop", "erase", "assign", "swap", "pop_back", "resize") and y[1] == "this._observers" for y in t.ev), w, "registered observers are lost")
    f = one(c, p, SM + "::unregisterObservers")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        ok = any(y[0] == "clear" and y[1] == "this._observers" for y in t.ev) or any(y[0] == "assign" and y[1] == "this._observers" for y in t.ev) or any(y[0] == "erase" and y[1] == "this._observers" and len(y[2]) == 3 for y in t.ev)
        c.ob("observers-removed", "unregisterObservers", e.kind == "ret" and ok, w, "observers stay registered")


def retof(L, e, f):
    return e.val


@prop("F04", "path-sensitive analysis of the constructors, the factory and the JSON mapping over container and string models",
      "Every path of the factory, of the constructors and accessors and of the JSON mapping; parsing itself is the library's.")
def f04(c):
    p = prog(c, keep=[r"kpsr::fsm::(TransitionImpl|StateImpl|StateMachineImpl)::.*Impl"])
    f = one(c, p, NS + "SMFactoryImpl::createStateMachine")
    L, ends, m = ways(c, f)
    n = "createStateMachine"
    S, T = "cnf.states[*]", "cnf.states[*].transitions[*]"
    cfg = f.argname(2)
    S, T = "%s.states[*]" % cfg, "%s.states[*].transitions[*]" % cfg

    def made(t, e, y, cls):
        if y[0] != "CALL":
            return False
        x = f.insts[y[4]]
        if re.search(r"(^|::)%s::%s$" % (cls, cls), y[1]) and ptr(simp(y[2][0]))[0][0] == "new":
            return True
        return y[1] in ("std::make_shared", "std::allocate_shared") and re.search(r"make_shared<[\w:]*%s\b|allocate_shared<[\w:]*%s\b" % (cls, cls), x.get("dem") or "")

    def into(t, pu, y):
        """is what y makes put into the list?"""
        o, k = t.origin(pu[2][1], t.at(pu))
        b, o2 = ptr(simp(y[2][0]))[0], ptr(simp(o))[0]
        # a new object whose pointer is what the element is made from
        put = b[0] == "new" and o2[0] == "al" and [x for x in f.all() if x.op == "store" and x.ops[1] == o2[1]]
        return t.same(o, y[2][0]) or bool(put) and all(x.ops[0] == b[1] for x in put)

    built = False
    for e in ends:
        t, w = L.of(e), where(f, e)
        D = lambda y, k: L.desc(e, y[2][k], t.at(y)) if len(y[2]) > k else None
        tr = [y for y in t.mine if made(t, e, y, "TransitionImpl")]
        sts = [y for y in t.mine if made(t, e, y, "StateImpl")]
        sms = [y for y in t.mine if made(t, e, y, "StateMachineImpl")]
        for y in tr:
            c.ob("transition-as-configured", n, (D(y, 1), D(y, 2)) == (T + ".destinationId", T + ".event"), f.where(f.insts[y[4]]), "a transition is not made from the destination and the event of its configuration")
        for y in sts:
            k = t.at(y)
            src = None
            c.ob("state-as-configured", n, D(y, 1) == S + ".id", f.where(f.insts[y[4]]), "a state does not get the id of its configuration")
            lst = y[2][2]
            loc = [z for z in t.ev[:k] if z[0] == "ctor" and t.same(z[2][0], lst)]
            fresh = bool(loc) and t.at(loc[-1]) >= len(e.pre)
            # since then only transitions are added, one per configured transition
            c.ob("state-as-configured", n, fresh, f.where(f.insts[y[4]]), "a state gets transitions of another state")
            wk = runs(L, e, S + ".transitions")
            c.ob("every-transition", n, len(wk) == 1, f.where(f.insts[y[4]]), "not every configured transition is visited")
        if e.kind == "iter":
            pu = [y for y in t.mine if y[0] == "push"]
            hdr = [cu for cu in L.cur.values() if cu.header == e.header]
            for cu in hdr:
                if cu.cont == S + ".transitions":
                    c.ob("every-transition", n, len(tr) == 1 and len(pu) == 1 and into(t, pu[0], tr[0]), w, "a configured transition is not added once")
                elif cu.cont == cfg + ".states":
                    c.ob("every-state", n, len(sts) == 1 and len(pu) == 1 and into(t, pu[0], sts[0]), w, "a configured state is not added once")
                    c.ob("every-state", n, cu.whole, w, "not every configured state is visited")
        for y in t.mine:
            if y[0] in ("s.assign",) and y[2][0][0] == "al":
                v = L.text(e, y[2][1], t.at(y))
                em = [z for z in t.ev[:t.at(y)] if z[0] in ("s.eq", "s.empty", "s.size", "s.ne") and t.same(z[2][0], y[2][0])]
                d = None
                for z in em:
                    b = truthy(m, e.st, z[3])
                    d = b if z[0] in ("s.eq", "s.empty") else None if b is None else not b
                if v == (("ld", S + ".id"),):
                    c.ob("starts-in-first-state", n, d is True, f.where(f.insts[y[4]]), "a later state replaces the initial one")
        for y in sms:
            built = True
            c.ob("machine-as-configured", n, D(y, 1) == cfg + ".id", f.where(f.insts[y[4]]), "the machine does not get the configured id")
            c.ob("every-state", n, len(runs(L, e, cfg + ".states")) == 1 or not L.cur, f.where(f.insts[y[4]]), "not every configured state is visited")
            lst = y[2][2]
            pushed = {z[2][0] for e2 in ends for z in L.of(e2).mine if z[0] == "push" and any(made(L.of(e2), e2, q, "StateImpl") for q in L.of(e2).mine)}
            c.ob("every-state", n, any(t.same(lst, q) for q in pushed), f.where(f.insts[y[4]]), "the machine is not made from the list of states")
            ini = y[2][3]
            a = {L.text(e2, z[2][1], L.of(e2).at(z)) for e2 in ends for z in L.of(e2).mine if z[0] == "s.assign" and L.of(e2).same(z[2][0], ini) and not L.of(e2).same(z[2][1], ini)}
            front = L.text(e, ini, t.at(y))
            front = front[0][1] if len(front) == 1 else '""' if front == () else "?"
            c.ob("starts-in-first-state", n, a == {(("ld", S + ".id"),)} or front in (cfg + ".states[front].id", cfg + ".states[0].id", "@.str", '""'), f.where(f.insts[y[4]]), "the initial state is not the first configured one")
    c.ob("machine-as-configured", n, built, f.here(), "no machine is made")
    # the objects themselves
    p = prog(c)
    f = one(c, p, SM + "::StateMachineImpl")
    L, ends, m = ways(c, f)
    n = "StateMachineImpl()"
    arg = [f.argname(i) for i in range(len(f.args))]
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "iter":
            ma = [y for y in t.mine if y[0] in ("mapat", "insert", "assign-key") and y[1] == "this._stateTable"]
            gid = [y for y in t.mine if y[0] == "CALL" and y[1].endswith("::getId")]
            ok = len(ma) == 1 and len(gid) >= 1
            if ok:
                k = L.text(e, ma[0][2][1], t.at(ma[0]))
                ok = len(k) == 1 and k[0][0] == "ret" and k[0][1].endswith("::getId") if ma[0][0] != "insert" else True
                g = [y for y in gid if t.at(y) < t.at(ma[0])]
                ok = ok and bool(g) and L.desc(e, shared(g[-1][2][1]), t.at(g[-1])) == arg[2] + "[*]"
                if ma[0][0] == "mapat":
                    st = [y for y in t.mine if y[0] == "p.assign" and t.same(y[2][0], ma[0][3])]
                    ok = ok and len(st) == 1 and L.desc(e, st[0][2][1], t.at(st[0])) == arg[2] + "[*]"
            c.ob("table-has-every-state", n, ok, w, "a state is not entered under its id")
            continue
        if e.kind != "ret":
            continue
        c.ob("table-has-every-state", n, len(runs(L, e, arg[2])) == 1, w, "not every state is entered")
        ini = {y[1]: y for y in t.ev if y[0] in ("s.ctor", "s.assign") and y[1] and y[1].startswith("this._")}
        for fld, k in (("this._id", 1), ("this._initialStateId", 3), ("this._currentStateId", 3)):
            y = ini.get(fld)
            x = L.text(e, y[2][1], t.at(y)) if y is not None and len(y[2]) > 1 else None
            c.ob("machine-as-constructed", n, x == (("ld", arg[k]),) or (k == 3 and x == (("ld", "this._initialStateId"),)), w, "%s is not initialised from its parameter" % fld)
        s = [y for y in t.ev if y[0] == "ST" and y[1] == "this._started"]
        c.ob("machine-as-constructed", n, bool(s) and truthy(m, e.st, s[-1][2][0]) is False, w, "a new machine runs")
    f = one(c, p, NS + "TransitionImpl::canTransition")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        q = [y for y in t.ev if y[0] in ("s.eq", "s.ne", "s.compare") and {L.desc(e, y[2][0]), L.desc(e, y[2][1])} == {f.argname(1), "this._eventId"}]
        ok = False
        if len(q) == 1 and e.kind == "ret":
            a, b = truthy(m, e.st, e.val), truthy(m, e.st, q[0][3])
            neg = q[0][0] != "s.eq"
            ok = simp(e.val) == simp(q[0][3]) if not neg else False
            ok = ok or (a is not None and b is not None and a == (b if not neg else not b))
            v = simp(e.val)
            if not ok and neg:
                ok = (q[0][0] == "s.compare" and v == cmpv("eq", simp(q[0][3]), ("c", 0))) or (v[0] == "op" and v[1] == "xor" and simp(q[0][3]) in (v[3], v[4])) or (v[0] == "cmp" and v[1] == "eq" and simp(q[0][3]) in v)
        c.ob("matches-its-event-only", "canTransition", ok, w, "a transition does not match exactly its own event")

    def returns(q, fld, ctor_arg):
        f = one(c, p, q)
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            cp = [y for y in t.ev if y[0] in ("s.ctor", "ctor") and y[2][0] == ("arg", 0)]
            c.ob("answers-what-it-was-given", q.rsplit("::", 2)[-2] + "::" + q.rsplit("::", 1)[-1], e.kind == "ret" and len(cp) == 1 and len(cp[0][2]) > 1 and L.desc(e, cp[0][2][1], t.at(cp[0])) == fld, w, "the answer is not %s" % fld)
    returns(NS + "TransitionImpl::getDestinationStateId", "this._destStateId", 1)
    returns(NS + "StateImpl::getId", "this._id", 1)
    returns(NS + "StateImpl::getTransitions", "this._transitions", 2)
    for q, flds in ((NS + "TransitionImpl::TransitionImpl", {"this._destStateId": 1, "this._eventId": 2}), (NS + "StateImpl::StateImpl", {"this._id": 1, "this._transitions": 2})):
        f = one(c, p, q)
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            ini = {y[1]: y for y in t.ev if y[0] in ("s.ctor", "s.assign", "ctor", "assign") and y[1] and y[1].startswith("this._")}
            for fld, k in flds.items():
                y = ini.get(fld)
                c.ob("answers-what-it-was-given", q.rsplit("::", 1)[-1] + "()", e.kind != "ret" or (y is not None and len(y[2]) > 1 and L.desc(e, y[2][1], t.at(y)) == f.argname(k)), w, "%s is not the parameter" % fld)
    json(c)


NVP = {"ConfigTransition": {"destination": "destinationId", "event": "event"}, "ConfigState": {"id": "id", "transitions": "transitions"}, "ConfigStateMachine": {"id": "id", "states": "states"}}


def json(c):
    """names of the JSON members, the loader and the ways from a file to a machine"""
    p = c.program("fsm.cpp", [r"void cereal::serialize<.*kpsr::fsm::.*"], keep=[r"cereal::(InputArchive|OutputArchive).*"], libkeep=KEEP + [r"^cereal::(make_nvp|InputArchive|OutputArchive|NameValuePair)"])
    got = set()
    for f in p.fns.values():
        k = re.search(r"serialize<.*kpsr::fsm::(\w+)&", f.dem)
        if not k or k.group(1) not in NVP:
            continue
        n = "serialize(%s)" % k.group(1)
        got.add(k.group(1))
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            if e.kind != "ret":
                continue
            d = {}
            for y in t.ev:
                if y[0] == "CALL" and y[1] == "cereal::make_nvp":
                    lit = [t.literal(y, i) for i in range(len(y[2]))]
                    i = next((i for i, x in enumerate(lit) if x is not None), None)
                    if i is not None:
                        d.setdefault(lit[i], []).append(L.desc(e, y[2][i + 1], t.at(y)).rsplit(".", 1)[-1])
            c.ob("json-member", n, d == {a: [b] for a, b in NVP[k.group(1)].items()}, w, "JSON names and members do not go together: %s" % d)
            c.ob("json-member", n, any(y[0] == "CALL" and re.search(r"Archive::(operator\(\)|process)", y[1]) for y in t.ev), w, "the members are not archived")
    c.ob("json-member", "serialize", got == set(NVP), "", "not every configuration type is mapped to JSON")
    p = c.program(c.unity([JS], ""), [r"kpsr::fsm::(FromJson|JsonConfigLoader)::.*"], keep=[r"kpsr::fsm::(SMFactoryImpl::createStateMachine|JsonConfigLoader::loadConfig|StateMachineListener::.*)", r"cereal::.*"], libkeep=KEEP + ["^cereal::"])
    for q, nxt in (("createStateMachine", r"createStateMachine$"), ("createStateMachineListener", r"^std::(make_shared|allocate_shared)$")):
        f = one(c, p, NS + "FromJson::" + q)
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            if e.kind != "ret":
                continue
            ld = [y for y in t.ev if y[0] == "CALL" and y[1].endswith("::loadConfig")]
            mk = [y for y in t.ev if y[0] == "CALL" and re.search(nxt, y[1])]
            ok = len(ld) == 1 and len(mk) == 1 and L.text(e, ld[0][2][2], t.at(ld[0])) == (("ld", f.argname(1)),)
            if ok:
                b = ptr(ld[0][2][0])[0]
                ok = any(ptr(v)[0] == b and (q == "createStateMachine" or ptr(v)[1] == ptr(ld[0][2][0])[1]) for v in mk[0][2])
            c.ob("machine-from-file", q, ok, w, "what is made does not come from the file that was named")


@prop("F05", "path-sensitive analysis of the listener over container and string models: which list runs, when, and what is left",
      "Every path of the listener for any registered actions; actions may call back into the listener or throw.")
def f05(c):
    p = prog(c)
    f = one(c, p, LS + "::updateCurrentState")
    L, ends, m = ways(c, f)
    n = "updateCurrentState"
    key = (("ld", f.argname(1)),)
    kn = f.argname(1)
    M = {"one-off": "this._oneOffActions", "entry": "this._actions", "periodic": "this._periodicActions"}
    for e in ends:
        t, w = L.of(e), where(f, e)
        calls = [y for y in t.mine if y[0] == "f.call"]
        for y in calls:
            cu = L.current(e, y[2][0], t.at(y))
            ok = cu is not None and cu.whole and cu.cont in ["%s{%s}" % (q, kn) for q in M.values()]
            c.ob("runs-actions-of-the-state", n, ok, f.where(f.insts[y[4]]), "an action is run that is not the current one of a list of this state")
            c.ob("tells-the-state", n, len(y[2]) > 1 and L.text(e, y[2][1], t.at(y)) == key, f.where(f.insts[y[4]]), "an action is not told the state")
            if cu is not None:
                c.ob("survives-changes-to-the-list", n, ptr(cu.src[1][2][0])[0][0] == "al", f.where(f.insts[y[4]]), "a list is walked that the action can change")
                if cu.cont == "%s{%s}" % (M["one-off"], kn):
                    k = t.at(y)
                    gone = [z for z in t.ev[:k] if z[0] in ("erase", "clear", "swap", "extract") and z[1] and z[1].startswith(M["one-off"])] + [z for z in t.ev[:k] if z[0] in ("clear", "swap") and L.desc(e, z[2][0], t.at(z)) == cu.cont]
                    ok = any(z[0] in ("clear", "swap") or len(z[2]) > 1 and (L.text(e, z[2][1], t.at(z)) == key or any(q[0] == "find" and simp(q[3]) == simp(z[2][1]) and L.text(e, q[2][1], t.at(q)) == key for q in t.ev[:k])) for z in gone)
                    c.ob("one-off-removed-first", n, ok, f.where(f.insts[y[4]]), "one-off actions are still registered while they run: re-entering the state or an exception runs them again")
        if e.kind == "iter":
            for cu in L.cur.values():
                if cu.header == e.header and cu.cont in ["%s{%s}" % (q, kn) for q in M.values()]:
                    c.ob("runs-each-once", n, len(calls) == 1, w, "an action is passed over or run twice")
            continue
        if e.kind != "ret":
            continue
        c.ob("runs-each-once", n, not calls, w, "the walk over the actions ends early")
        ch = truthy(m, e.st, ("arg", 2))
        if ch is None:
            ch = m.decide(e.st, ("arg", 2))
        for k, q in M.items():
            fd = found(L, e, q, key)
            act = [cu for cu in L.cur.values() if cu.cont == "%s{%s}" % (q, kn) and L.entered(e, cu)]
            done = [cu for cu in act if L.finished(e, cu)]
            c.ob("whole-list", "%s actions" % k, len(done) == len(act) and len(act) <= 1, w, "not all %s actions run, or run twice" % k)
            if k == "periodic":
                c.ob("runs-when-due", "periodic actions", fd is False or len(act) == 1, w, "periodic actions do not run on an update")
            else:
                c.ob("runs-when-due", "%s actions" % k, ch is not True or fd is False or len(act) == 1, w, "%s actions do not run when the state is entered" % k)
                c.ob("not-otherwise", "%s actions" % k, ch is True or not act, w, "%s actions run although the state was not entered" % k)
                c.ob("runs-when-due", "%s actions" % k, ch is not None, w, "the flag is not looked at")
            if k == "one-off":
                c.ob("stays-registered", "one-off actions", not any(y[0] in ("clear", "swap", "assign") and y[1] == q for y in t.ev), w, "one-off actions of other states are lost")
            else:
                c.ob("stays-registered", "%s actions" % k, not any(y[0] in ("erase", "clear", "swap", "assign") and y[1] and y[1].startswith(q) for y in t.ev) and not any(y[0] in ("clear", "swap", "erase", "pop_back") and L.desc(e, y[2][0], t.at(y)) == "%s{%s}" % (q, kn) for y in t.ev), w, "%s actions are lost" % k)

    def keyed(f, L, e, y, q):
        """is y about map q under the complete name of the state, or about the list it has there?"""
        t = L.of(e)
        em = isempty(L, e, "this._stateMachineId")
        want = (("ld", f.argname(1)),) if em is True else (("ld", "this._stateMachineId"), ("lit", ":"), ("ld", f.argname(1))) if em is False else None
        for z in t.ev[:t.at(y) + 1]:
            if z[0] in ("mapat", "mapget", "find", "erase") and z[1] == q and len(z[2]) > 1:
                k = next((v for v in t.ev if v[0] == "find" and simp(v[3]) == simp(z[2][1])), z) if z[0] == "erase" else z
                if z is y or z[3] is not None and simp(z[3]) == ptr(y[2][0])[0]:
                    if want is not None and L.text(e, k[2][1], t.at(k)) == want:
                        return True
        return False
    for q, mp in (("addAction", M["entry"]), ("addOneOffAction", M["one-off"]), ("addPeriodicAction", M["periodic"])):
        f = one(c, p, LS + "::" + q)
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            if e.kind != "ret":
                continue
            ps = [y for y in t.ev if y[0] in ("push", "insert-at")]
            ok = len(ps) == 1 and ps[0][0] == "push" and L.desc(e, ps[0][2][1], t.at(ps[0])) == f.argname(2) and keyed(f, L, e, ps[0], mp)
            c.ob("action-added", q, ok, w, "the action is not added once to the list of its state (\"machine:state\", or the state alone without a machine)")
            c.ob("actions-kept", q, not any(y[0] in ("erase", "clear", "swap", "assign", "pop_back", "resize") for y in t.ev), w, "registered actions are lost")
    for f in p.find(LS + "::removeActions"):
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            if e.kind != "ret":
                continue
            if len(f.args) == 1:
                ok = any(y[0] == "clear" and y[1] == M["periodic"] or y[0] == "assign" and y[1] == M["periodic"] for y in t.ev)
            else:
                ok = any(y[0] in ("clear",) and y[1] != M["periodic"] and keyed(f, L, e, y, M["periodic"]) for y in t.ev) or any(y[0] == "erase" and y[1] == M["periodic"] and keyed(f, L, e, y, M["periodic"]) for y in t.ev)
                ok = ok or found(L, e, M["periodic"]) is False
            c.ob("actions-removed", "removeActions(%s)" % ("state" if len(f.args) > 1 else ""), ok, w, "periodic actions stay registered")
