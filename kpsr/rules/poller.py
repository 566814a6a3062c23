"""Queue pollers and the publishers that feed them."""
import re

from ..build import REPO
from ..core import prop
from ..sem import F, NULL, T, Ev, castv, clean, cmpv, gev, linv, mkp, ptr, simp, truthy, walk, base_of

SRC = "/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp"
CLS = "kpsr::mem::InMemoryQueuePoller"
POL = [(r"^std::thread::thread$", "THREAD"), (r"^std::thread::joinable$", "JOINABLE"), (r"^std::thread::join$", "JOIN"), (r"^std::thread::detach$", "DETACH"),
       (r"^std::thread::~thread$", "~THREAD"), (r"^std::thread::(operator=|swap)$", "TMOVE"), (r"^std::packaged_task::(operator=|reset)$", "REARM"),
       (r"takeEventFromQueue$", "TAKE"), (r"^kpsr::mem::InMemoryQueuePoller::stop$", "STOP"), (r"InMemoryQueuePoller::~InMemoryQueuePoller$", "~BASE"),
       (r"^std::__shared_ptr::~__shared_ptr$|^std::.*::~\w+$", "~MEMBER")]
FLAGS = r"^this\._(started|running)$"


def flag(ev):
    return ev[1].rsplit("_", 1)[1] if ev[0] in ("LD", "ST") else None


def split(ev):
    """an exchange is a read followed by a write"""
    def g(m, x, st, vals, res):
        r = ev(m, x, st, vals, res)
        if r and r[0] == "RMW" and x.op == "atomicrmw" and r.q == "xchg":
            return Ev(("LD", r.p, (), r.r, r.i, r.q)), Ev(("ST", r.p, r.v[:1], None, r.i, r.q))
        return r
    return g


def moved(m, ends):
    """without the exchanges that leave what was there"""
    for e in ends:
        e.ev = tuple(z for z in e.ev if not (z[0] == "ST" and z.v and any(y[0] == "LD" and y.i == z.i and truthy(m, e.st, y.r) is not None and truthy(m, e.st, y.r) is truthy(m, e.st, z.v[0]) for y in e.ev)))
    return ends


def flow(m, st, evs, a, b):
    """last flag reads before position b and after a: name -> value"""
    r = {}
    for ev in evs[a:b]:
        if ev[0] == "LD":
            r[flag(ev)] = truthy(m, st, ev.r)
    return r


def begin_life(c, f, ev, thr, loop="_loopFunction", tag=""):
    """start() of a poller: one thread, marked before it starts, kept, and running on return"""
    ends, m = walk(f, ev, throws=thr)
    n_started = 0
    for e in moved(m, ends):
        c.count("paths")
        w = f.where(e.x) if e.x is not None else f.here()
        th = [z for z in e.ev if z[0] == "THREAD"]
        if e.kind == "iter":
            c.ob("one-thread", tag + "start", not th and not e.evs("TMOVE"), w, "threads are started in a loop")
            continue
        ld = [z for z in e.ev if z[0] == "LD" and flag(z) == "started"]
        first = truthy(m, e.st, ld[0].r) if ld else None
        if e.kind == "ret" and not th:
            c.ob("already-started-only", tag + "start", bool(ld) and any(truthy(m, e.st, z.r) is True for z in ld), w, "start() returns without a thread although the poller was not started")
            c.ob("restart-changes-nothing", tag + "start", not e.evs("ST", "TMOVE"), w, "starting a started poller changes its state")
            continue
        if th:
            k = e.ev.index(th[0])
            c.ob("one-thread", tag + "start", len(th) == 1, w, "more than one thread is started")
            c.ob("not-started-before", tag + "start", bool(ld) and first is False, w, "a thread is started for a poller that may have one already")
            on = [z for z in e.ev[:k] if z[0] == "ST" and flag(z) == "started"]
            c.ob("started-before-thread", tag + "start", bool(on) and truthy(m, e.st, on[-1].v[0]) is True, w, "the thread starts before the poller is marked as started: it can leave at once")
            c.ob("flags-kept", tag + "start", not [z for z in e.ev[k:] if z[0] == "ST"], w, "start() changes a flag after the thread exists")
            mv = [z for z in e.ev[k:] if z[0] == "TMOVE" and z.p == "this._threadNotifier"]
            own = clean(m.path(e.st, th[0].v[0])[0]) == "this._threadNotifier"
            if e.kind == "ret":
                n_started += 1
                c.ob("thread-kept", tag + "start", bool(mv) or own, w, "the thread is not kept: nobody can join it")
                run = [z for z in e.ev[k:] if z[0] == "LD" and flag(z) == "running"]
                c.ob("running-on-return", tag + "start", bool(run) and truthy(m, e.st, run[-1].r) is True, w, "start() returns although the thread was not seen running")
                c.ob("runs-loop-function", tag + "start", any(clean(m.path(e.st, v)[0]) == "this." + loop for v in th[0].v[1:]), w, "the thread does not run the loop function")
        c.ob("no-detach", tag + "start", not e.evs("DETACH"), w, "the thread is detached")
    c.ob("starts", tag + "start", n_started > 0, f.here(), "start() never starts a thread")


def end_life(c, f, ev, loop="_loopFunction", tag=""):
    """stop() of a poller: the thread is told, awaited, and can be started again"""
    ends, m = walk(f, ev, throws=lambda x: False)
    joined = 0
    for e in moved(m, ends):
        c.count("paths")
        w = f.where(e.x) if e.x is not None else f.here()
        if e.kind == "iter":
            c.ob("no-loop", tag + "stop", False, w, "stop() loops")
            continue
        ld = [z for z in e.ev if z[0] == "LD" and flag(z) == "started"]
        act = [z for z in e.ev if z[0] in ("ST", "JOIN", "REARM", "TMOVE", "DETACH")]
        if not act:
            c.ob("nothing-only-when-stopped", tag + "stop", bool(ld) and any(truthy(m, e.st, z.r) is False for z in ld), w, "stop() does nothing although the poller may be started")
            continue
        joined += shutdown(c, tag + "stop", f, m, e, w)
        jn = [k for k, z in enumerate(e.ev) if z[0] == "JOIN"]
        k = jn[-1] if jn else 0
        c.ob("stopped-after-stop", tag + "stop", last_store(m, e, "running", after=k) is False, w, "the poller can still call itself running after stop(): the thread raises the flag when it starts")
        c.ob("stopped-after-stop", tag + "stop", last_store(m, e, "started") is False, w, "the poller is still marked as started after stop()")
        c.ob("restartable", tag + "stop", any(z[0] == "REARM" and z.p == "this." + loop for z in e.ev[k:]), w, "the loop function is not renewed after the thread ended: the poller cannot be started again")
    c.ob("joins", tag + "stop", joined > 0, f.here(), "stop() does not wait for the thread")


def gone_life(c, f, ev, tag=""):
    """the destructor of a poller waits for the thread before the members go"""
    ends, m = walk(f, ev, throws=lambda x: False)
    for e in moved(m, ends):
        if e.kind == "stop" or e.x is not None and e.x.op == "unreachable":
            continue
        c.count("paths")
        w = f.where(e.x) if e.x is not None else f.here()
        shutdown(c, tag + "destructor", f, m, e, w)
        de = [k for k, z in enumerate(e.ev) if z[0] == "~THREAD"]
        jn = [k for k, z in enumerate(e.ev) if z[0] == "JOIN"]
        c.ob("join-before-destruction", tag + "destructor", not jn or not de or jn[-1] < de[0], w, "members are destroyed before the thread ended")


@prop("Q03", "path-sensitive typestate of the polling thread (flags, thread object, loop function)",
      "All paths of start, stop, the polling loop and the destructors; a path that is possible for some timing of the other thread is a path of the analysis.")
def q03(c):
    p = c.program(REPO + SRC, [CLS + r"::.*"])
    ev = split(gev(POL, FLAGS, locks=False))
    fns = {k: p.find(CLS + "::" + k) for k in ("start", "stop", "pollingLoop", "~InMemoryQueuePoller")}
    for k, l in fns.items():
        for f in l:
            c.analysed(f)
    thr = lambda x: bool(re.match(r"^std::thread::thread$|takeEventFromQueue$", x.callee or "")) or not x.callee
    begin_life(c, fns["start"][0], ev, thr)
    # loop
    f = fns["pollingLoop"][0]
    ends, m = walk(f, ev, throws=thr)
    takes = 0
    for e in ends:
        c.count("paths")
        w = f.where(e.x) if e.x is not None else f.here()
        full = tuple(e.pre) + tuple(e.ev)
        on = [k for k, z in enumerate(full) if z[0] == "ST" and flag(z) == "running"]
        for k in range(len(e.pre), len(full)):
            z = full[k]
            if z[0] == "TAKE":
                takes += 1
                last = max([j for j in range(k) if full[j][0] == "TAKE"] + [len(e.pre) if e.kind == "iter" else 0])
                fl = flow(m, e.st, full, last, k)
                c.ob("stopped-means-stopped", "pollingLoop", fl.get("started") is True and fl.get("running") is True, f.where(f.insts[z.i]), "an event is taken without looking whether the poller was stopped")
            if z[0] == "ST":
                v = truthy(m, e.st, z.v[0])
                if flag(z) == "running" and v is True:
                    c.ob("announces-once", "pollingLoop", e.kind != "iter" and not any(q[0] in ("LD", "TAKE", "LOOP") for q in full[:k]), f.where(f.insts[z.i]), "the running flag is raised again: a stop in between is lost")
                elif flag(z) == "started":
                    c.ob("announces-once", "pollingLoop", v is False, f.where(f.insts[z.i]), "the thread marks the poller as started")
        if e.kind == "ret":
            c.ob("announces-running", "pollingLoop", bool(on) and truthy(m, e.st, full[on[0]].v[0]) is True, w, "the thread does not say that it runs")
            fl = flow(m, e.st, full, 0, len(full))
            c.ob("leaves-only-when-stopped", "pollingLoop", fl.get("started") is False or fl.get("running") is False, w, "the polling thread ends although the poller was not stopped")
        if e.kind == "iter":
            c.ob("polls-each-turn", "pollingLoop", len(e.evs("TAKE")) == 1, w, "a turn of the loop does not take exactly one event")
    c.ob("polls", "pollingLoop", takes > 0, f.here(), "the loop takes no events")
    end_life(c, fns["stop"][0], ev)
    for f in fns["~InMemoryQueuePoller"]:
        gone_life(c, f, ev)
    # constructor and derived classes
    p = c.program("poller.cpp", [r"kpsr::mem::[A-Za-z]*Poller<KMsg>::.*Poller\(.*"], keep=[CLS + r"::(stop|~).*"])
    der = [g for g in p.all() if re.match(r"^kpsr::mem::\w+Poller::~\w+$", g.sq) and g.sq != CLS + "::~InMemoryQueuePoller"]
    c.need(len({g.sq for g in der}) >= 2, "the destructors of the pollers were not found")
    for g in der:
        c.analysed(g)
        ends, m = walk(g, ev, throws=lambda x: False)
        for e in ends:
            if e.kind != "ret":
                continue
            c.count("paths")
            k = [j for j, z in enumerate(e.ev) if z[0] == "STOP"]
            d = [j for j, z in enumerate(e.ev) if z[0] in ("~MEMBER", "~BASE") and (z.p or "").startswith("this")]
            c.ob("stopped-before-members-die", g.sq.rsplit("::", 1)[1], bool(k) and (not d or k[0] < d[0]), g.here(), "members of the poller are destroyed while its thread can still use them")
    ct = [g for g in p.all() if re.match(r"^kpsr::mem::\w+Poller::\w+Poller$", g.sq)]
    for g in ct:
        c.analysed(g)
        ends, m = walk(g, ev, throws=lambda x: False)
        for e in ends:
            if e.kind == "ret":
                for n in ("running", "started"):
                    c.ob("starts-stopped", g.sq.rsplit("::", 1)[1] + " " + n, last_store(m, e, n) is False, g.here(), "a new poller is marked as %s" % n)


def last_store(m, e, name, after=0):
    s = [z for z in e.ev[after:] if z[0] == "ST" and flag(z) == name]
    return truthy(m, e.st, s[-1].v[0]) if s else None


def shutdown(c, n, f, m, e, w):
    jn = [k for k, z in enumerate(e.ev) if z[0] == "JOIN"]
    c.ob("no-detach", n, not e.evs("DETACH"), w, "the thread is detached")
    if jn:
        for s in ("started", "running"):
            st = [z for z in e.ev[:jn[0]] if z[0] == "ST" and flag(z) == s]
            ok = bool(st) and truthy(m, e.st, st[-1].v[0]) is False
            if s == "started":
                # it was told before: nobody is started by what stops the poller
                ld = [k for k, z in enumerate(e.ev[:jn[0]]) if z[0] in ("LD", "ST") and flag(z) == s]
                ok = ok or bool(ld) and e.ev[ld[-1]][0] == "LD" and truthy(m, e.st, e.ev[ld[-1]].r) is False
                c.ob("asked-to-stop-before-join", n, ok, w, "the thread is awaited although it was not told to stop: when it is only now starting it never ends")
        return 1
    jb = [z for z in e.ev if z[0] == "JOINABLE"]
    c.ob("joined", n, bool(jb) and truthy(m, e.st, jb[-1].r) is False, w, "the thread is not awaited although it may be running")
    return 0


# ------------------------------------------------------------------ Q04
PUB = ("kpsr::mem::BasicPublisher", "kpsr::mem::ConcurrentQueuePublisher")
PQ = [(r"SafeQueue::timeout_move_pop$|SafeQueue::(try_|timeout_|move_|try_move_)?pop$", "POP"), (r"moodycamel::ConcurrentQueue::try_dequeue", "DEQ"), (r"emitEvent$", "EMIT"),
      (r"SafeQueue::\w*push$", "PUSH"), (r"moodycamel::ConcurrentQueue::(try_)?enqueue", "ENQ"), (r"^std::function::operator\(\)$", "CALLF"),
      (r"^std::(shared_ptr|__shared_ptr)::operator=$", "ASSIGN"), (r"^std::shared_ptr::shared_ptr$", "SPNEW"), (r"^std::function::operator=", "INSTALL"),
      (r"std::this_thread::(sleep_for|yield|sleep_until)", "SLEEP"), (r"EventData::operator=$", "EVCOPY")]
KEEP = [r"kpsr::mem::SafeQueue<.*>::", r"moodycamel::", r"kpsr::mem::InMemoryQueuePoller::", r"kpsr::ObjectPoolPublisher"]


@prop("Q04", "path-sensitive event analysis of pollers and publishers: one hand-over per event, nothing invented, dropped or uncounted",
      "Each function is analysed for every outcome of the queue operations; the queues themselves are Q01, Q02 and, for the lock-free one, moodycamel (trusted).")
def q04(c):
    c.assumption("moodycamel::ConcurrentQueue delivers what was enqueued with a producer token in order, exactly once")
    p = c.program("poller.cpp", [r"kpsr::mem::(SafeQueuePoller|ConcurrentQueuePoller|BasicPublisher|ConcurrentQueuePublisher)<KMsg>::.*"], keep=KEEP)
    ed = None
    for t, d in enumerate(p.types):
        if re.match(r"^(kpsr::mem::)?EventData<", (d.get("q") or d.get("name") or "").replace("kpsr::mem::", "")) and d.get("size"):
            a, b = p.field_of(t, "eventData"), p.field_of(t, "enqueuedTimeInNs")
            if a and b:
                ed = (a[0], b[0])
    c.need(ed is not None, "the type of queued events was not found")
    ev = gev(PQ, r"totalDiscardedEvents$|enqueuedTimeInNs$|^this\._\w*[dD]iscard\w*$", locks=False)
    thr = lambda x: not re.match(r"^std::(__)?shared_ptr::", x.callee or "")
    # pollers
    tk = [f for f in p.all() if f.sq.endswith("::takeEventFromQueue")]
    c.need(len(tk) == 2, "the pollers' event functions were not found")
    for f in tk:
        c.analysed(f)
        n = f.sq.split("::")[-2]
        ends, m = walk(f, ev, throws=thr)
        ok = 0
        for e in ends:
            if e.kind == "stop":
                continue
            c.count("paths")
            w = f.where(e.x) if e.x is not None else f.here()
            if e.kind == "iter":
                c.ob("no-loop", n, not e.evs("EMIT", "POP", "DEQ"), w, "events are taken in a loop")
                continue
            took = [z for z in e.ev if z[0] in ("POP", "DEQ")]
            em = e.evs("EMIT")
            got = [z for z in took if truthy(m, e.st, z.r) is True or re.search(r"SafeQueue::(move_)?pop$", f.insts[z.i].callee or "")]
            unk = [z for z in took if z not in got and truthy(m, e.st, z.r) is not False]
            if e.kind in ("exc", "throw") and not em:
                continue
            c.ob("result-looked-at", n, not unk, w, "whether an event was taken is not looked at")
            c.ob("one-emission", n, len(em) == len(got) and len(got) <= 1, w, "%d events were taken but %d handed over" % (len(got), len(em)))
            if got and em:
                ok += 1
                g, h = got[0], em[0]
                pos = {"POP": 1, "DEQ": 2}[g[0]]
                if g[0] == "DEQ" and "from_producer" not in (f.insts[g.i].callee or ""):
                    pos = len(g.v) - 1
                loc = g.v[pos]
                c.ob("emits-name", n, clean(m.path(e.st, h.v[1])[0]) == "this._eventName", w, "the event is emitted under another name")
                tv = h.v[2]
                c.ob("emits-time", n, same_read(m, e, tv, mkp(loc, ed[1]), g), w, "the time handed over is not the one taken from the queue")
                c.ob("emits-data", n, simp(taken_from(e, h.v[3], e.ev.index(h), e.ev.index(g))) == simp(mkp(loc, ed[0])), w, "the data handed over is not what was taken from the queue")
                c.ob("emits-after-taking", n, e.ev.index(g) < e.ev.index(h), w, "the event is handed over before it is taken")
                q = clean(m.path(e.st, h.v[0])[0])
                c.ob("emits-to-own-emitter", n, q.startswith("this._eventEmitter"), w, "the event goes to another emitter")
                c.ob("takes-own-queue", n, clean(m.path(e.st, g.v[0])[0]).startswith("this._internalQueue"), w, "the event is taken from another queue")
        c.ob("emits", n, ok > 0, f.here(), "taken events are never handed over")
    # publishers
    for cls in PUB:
        ip = p.find(cls + "::internalPublish")[0]
        ctors = p.find(cls + "::" + cls.rsplit("::", 1)[1])
        c.analysed(ip)
        n = cls.rsplit("::", 1)[1]
        inst, modes = {}, {}
        for g in ctors:
            ends, m = walk(g, ev, throws=lambda x: False)
            for e in ends:
                if e.kind != "ret":
                    continue
                d = None
                for k in range(1, 16):
                    if ("arg", k) in e.st.facts:
                        d = m.decide(e.st, ("arg", k))
                for z in e.evs("ST"):
                    if re.search(r"^this\._\w*[dD]iscard\w*$", z.p or ""):
                        a = simp(z.v[0])
                        while a[0] in ("ext", "cast"):
                            a = a[3] if a[0] == "cast" else a[1]
                        modes.setdefault(z.p, set()).add(a[0] == "arg" and g.args[a[1]]["ty"] in ("i1", "i8"))
                for z in e.evs("INSTALL"):
                    inst.setdefault(z.p, {}).setdefault(d, set()).add(p.closure_of(g.insts[z.i]))
        ends, m = walk(ip, ev, throws=thr)
        done = 0
        for e in ends:
            if e.kind == "stop":
                continue
            c.count("paths")
            w = ip.where(e.x) if e.x is not None else ip.here()
            puts = [z for z in e.ev if z[0] in ("PUSH", "ENQ") or z[0] == "CALLF" and len(z.v) > 1]
            if e.kind in ("exc", "throw"):
                c.ob("at-most-once", n, len(puts) <= 1, w, "an event is enqueued more than once")
                continue
            if e.kind == "iter":
                c.ob("at-most-once", n, not puts, w, "an event is enqueued in a loop")
                continue
            c.ob("enqueued-once", n, len(puts) == 1, w, "publishing enqueues %d events" % len(puts))
            if len(puts) != 1:
                continue
            done += 1
            z = puts[0]
            loc = z.v[1] if z[0] != "ENQ" else z.v[-1]
            k = e.ev.index(z)
            asg = [q for q in e.ev[:k] if q[0] == "ASSIGN" and simp(q.v[0]) == simp(mkp(loc, ed[0]))]
            okd = bool(asg) and simp(taken_from(e, asg[-1].v[1], e.ev.index(asg[-1]))) == ("arg", 1)
            c.ob("data-stored", n, okd, w, "the enqueued event does not carry the published data")
            ts = [q for q in e.ev[:k] if q[0] == "ST" and simp_at(m, e, q, loc, ed[1])]
            tv = ts[-1].v[0] if ts else None
            src = [q for q in e.ev[:k] if q[0] == "CALLF" and len(q.v) == 1 and q.r is not None and simp(q.r) == tv]
            c.ob("time-stored", n, bool(src) and src[0].p == "this._updateTime", w, "the enqueued event does not carry the time of publishing")
            if z[0] == "CALLF":
                for mode in (True, False):
                    fs = inst.get(z.p, {}).get(mode, set())
                    c.ob("queue-function-installed", "%s discard=%s" % (n, mode), len(fs) == 1 and None not in fs, w, "no single function is installed to enqueue events")
                    for g in fs - {None}:
                        put(c, p, g, ev, mode, n)
            else:
                # put into the queue right here, in the way a member tells
                mem, mode = asked_mode(m, e)
                c.ob("queue-function-installed", n, mem is not None and modes.get(mem) == {True}, w, "whether events are discarded when the queue is full is not what was asked for at construction")
        if any(z[0] in ("PUSH", "ENQ") for e in ends for z in e.ev):
            for mode in (True, False):
                put(c, p, ip, ev, mode, n, [e for e in ends if e.kind == "stop" or asked_mode(m, e)[1] in (mode, None)], m)
        c.ob("publishes", n, done > 0, ip.here(), "publishing never enqueues")


def simp_at(m, e, q, loc, off):
    s = m.path(e.st, mkp(loc, off))[0]
    return clean(s) == q.p


def same_read(m, e, v, addr, g):
    """is v what was read from addr after event g?"""
    s = clean(m.path(e.st, addr)[0])
    return any(z[0] == "LD" and z.p == s and simp(z.r) == simp(v) for z in e.ev[e.ev.index(g):])


def taken_from(e, v, k, first=0):
    """the shared_ptr that a local one was built from"""
    for _ in range(4):
        b = [z for z in e.ev[first:k] if z[0] == "SPNEW" and len(z.v) > 1 and simp(z.v[0]) == simp(v)]
        if not b:
            break
        v, k = b[-1].v[1], e.ev.index(b[-1])
    return v


def asked_mode(m, e):
    """(member, whether it says that events are discarded when the queue is full)"""
    for z in e.ev:
        if z[0] == "LD" and re.search(r"^this\._\w*[dD]iscard\w*$", z.p or ""):
            return z.p, truthy(m, e.st, z.r)
    return None, None


def put(c, p, g, ev, mode, n, ends=None, m=None):
    c.analysed(g)
    item = ("arg", 1)
    if ends is None:
        ends, m = walk(g, ev)
    else:
        item = None
    n = "%s discard=%s" % (n, mode)
    w0 = g.here()
    good = added = 0
    direct = any(z[0] in ("ST", "RMW") and z.p.endswith("totalDiscardedEvents") for e in ends if e.kind == "iter" for z in e.ev)
    for e in ends:
        if e.kind == "stop":
            continue
        c.count("paths")
        w = g.where(e.x) if e.x is not None else w0
        if e.kind in ("exc", "throw"):
            continue
        pu, dq = [z for z in e.ev if z[0] in ("PUSH", "ENQ")], e.evs("DEQ")
        sure = [z for z in pu if not re.search(r"::try_", g.insts[z.i].callee or "")]
        yes = sure + [z for z in pu if z not in sure and truthy(m, e.st, z.r) is True]
        unk = [z for z in pu if z not in yes and truthy(m, e.st, z.r) is not False]
        c.ob("result-looked-at", n, not unk, w, "whether the event was enqueued is not looked at")
        for z in pu:
            c.ob("enqueues-argument", n, item is None or m.path(e.st, z.v[1] if z[0] == "PUSH" else z.v[-1])[0] == m.path(e.st, item)[0], w, "something else than the event is enqueued")
            c.ob("own-queue", n, "_internalQueue" in clean(m.path(e.st, z.v[0])[0]), w, "the event goes to another queue")
        for z in dq:
            c.ob("own-queue", n, "_internalQueue" in clean(m.path(e.st, z.v[0])[0]), w, "events of another queue are discarded")
        if not mode:
            c.ob("blocks-without-discarding", n, not dq and not [z for z in pu if "force" in (g.insts[z.i].callee or "")], w, "events are discarded although the publisher must block")
        if e.kind == "iter":
            c.ob("enqueued-once", n, not yes, w, "an enqueued event is enqueued again")
            rm = [z for z in dq if truthy(m, e.st, z.r) is True]
            if dq:
                c.ob("discard-only-when-full", n, bool(pu) and e.ev.index(pu[0]) < e.ev.index(dq[0]), w, "an event is discarded although the queue was not seen full")
            inc = [(o, q) for o, q in (e.phis or {}).values() if o is not None and q is not None]
            d = [linv(q)[1] - linv(o)[1] for o, q in inc if linv(o)[0] == linv(q)[0]]
            st = [z for z in e.evs("ST", "RMW") if z.p.endswith("totalDiscardedEvents")]
            unkd = [z for z in dq if z not in rm and truthy(m, e.st, z.r) is not False]
            c.ob("discard-looked-at", n, not unkd, w, "whether an event was discarded is not looked at")
            if direct:
                dl = [linv(z.v[0])[1] for z in st if z[0] == "ST"]
                okc = (not rm and not st) or (len(st) == 1 and dl == [len(rm)])
            else:
                okc = d.count(len(rm)) >= 1
            c.ob("discards-counted", n, okc if rm or mode else True, w, "the number of discarded events is wrong after this turn")
            continue
        c.ob("enqueued-once", n, len(yes) == 1, w, "publishing enqueues %d events" % len(yes))
        good += 1
        if mode and direct:
            c.ob("discards-added", n, len([z for z in e.evs("ST", "RMW") if z.p.endswith("totalDiscardedEvents")]) == len([z for z in dq if truthy(m, e.st, z.r) is True]), w, "the number of discarded events is wrong")
        elif mode:
            st = [z for z in e.evs("ST", "RMW") if z.p.endswith("totalDiscardedEvents")]
            ok = len(st) == 1
            if ok and st[0][0] == "ST":
                v = st[0].v[0]
                base = [z for z in e.evs("LD") if z.p == st[0].p]
                d, k = linv(v)
                loop = any(z[0] == "LOOP" for z in e.ev)
                rest = {a: q for a, q in d.items() if not any(simp(z.r) == a for z in base)}
                rm = [z for z in dq if truthy(m, e.st, z.r) is True]
                ok = bool(base) and len(d) == len(rest) + 1 and k == len(rm) and (len(rest) == 1 if sure else len(rest) <= loop)
                added += len(rest)
            fm = [z for z in pu if "force" in (g.insts[z.i].callee or "")]
            if fm and ok and st[0][0] == "ST":
                t, k = linv(st[0].v[0])
                r = simp(fm[0].r)
                ok = any(a == r or r in flat(a) for a in t) and not k
            c.ob("discards-added", n, ok, w, "the discarded events are not added to the statistics")
    if mode and not direct and any(z[0] == "DEQ" for e in ends for z in e.ev):
        c.ob("discards-added", n + " after discarding", added > 0, w0, "the discarded events are not added to the statistics")
    c.ob("enqueues", n, good > 0, w0, "nothing is enqueued")


def flat(v):
    r = []
    if isinstance(v, tuple):
        for a in v:
            if isinstance(a, tuple):
                r.append(a)
                r += flat(a)
    return r
