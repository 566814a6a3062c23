"""Event processors: lifecycle and delivery."""
from ..core import prop
from ..flow import (Lin, bool_cases, cond_norm, explore, facts_at, is_throw, lin, set_hooks, thrown_type)
from ..ir import AnalysisBroken
from ..rec import V, aliases, bit_root, bits, bool_root, branch_on, catch_test, move, same, throws_only
from .waiting import ACQ, REL, ALERT, TIMEOUT

BATCH = "disruptor4cpp::batch_event_processor"
NOOP = "disruptor4cpp::no_op_event_processor"


def kind(f):
    return "multi" if "type)1" in f.dem else "single"


class Proc:
    def __init__(self, f, batch):
        self.f, self.batch = f, batch

    def field(self, x):
        return self.f.addr(x.ops[1 if x.op == "store" else 0]).key()

    def is_running(self, x):
        return x.op in ("store", "load", "cmpxchg", "atomicrmw") and self.field(x).startswith("this.running")

    def is_seq(self, x):
        return x.op in ("store", "load", "cmpxchg", "atomicrmw") and self.field(x).startswith("this.sequence_.")

    def is_wait(self, x):
        return x.is_call() and (x.callee or "").endswith("sequence_barrier::wait_for")

    def is_alert_flag(self, x):
        return x.op in ("store", "cmpxchg", "atomicrmw") and self.field(x).startswith("this.sequence_barrier") and "alerted" in self.field(x)

    def ev(self, x):
        """Event handler callback name."""
        if not x.is_call():
            return None
        n = self.f.callee_name(x)
        if "event_handler" in n and "::on_" in n:
            return n.rsplit("::", 1)[1]
        return None


def takes(f, x):
    """Indivisible false -> true: compare-and-set, or exchange with a look at
    what was there."""
    if x.op == "cmpxchg":
        return lin(f, x.ops[1]).const() == 0 and lin(f, x.ops[2]).const() == 1
    return x.op == "atomicrmw" and x.get("rmw") in ("xchg", "or") and lin(f, x.ops[1]).const() == 1


def procs(c):
    p = c.program("disruptor.cpp", [r"^disruptor4cpp::(batch|no_op)_event_processor<"],
                  keep=[r"::wait_for(<|\()", r"::signal_all_when_blocking\("])
    for cls in (BATCH, NOOP):
        for f in p.find(cls + "::run"):
            c.analysed(f)
            yield p, Proc(f, cls == BATCH)


def tagof(pr):
    return "%s::run %s" % ("batch" if pr.batch else "no_op", kind(pr.f))


# ------------------------------------------------------------------ C08
@prop("C08", "typestate over every normal and exceptional path of the processors' run and halt operations",
      "Every path of run() through any combination of handler exceptions is covered; interleavings with halt() are covered through the ordering of the running flag, the alert flag and the read-modify-write that clears it.")
def c08(c):
    c.assumption("one barrier per processor; nobody else raises or clears the barrier's alert while it runs")
    for p, pr in procs(c):
        f = pr.f
        tag = tagof(pr)
        bad = {}

        def fail(rule, x, msg):
            bad.setdefault(rule, (x, msg))

        rules = ["exclusive-start", "start-before-events", "running-cleared", "running-until-done", "halt-not-lost", "halt-noticed", "shutdown-once", "alert-cleared-first"]
        # state: (phase, started, shut, freshrun, cleared, off, exc)
        # phase: idle | own ; started 0/1 ; shut 0/1 ; freshrun: running seen true since the alert was cleared / last look
        cas = [x for x in f.all() if pr.is_running(x) and takes(f, x)]
        ok = len(cas) == 1 and not any(x.op == "cmpxchg" and x not in cas for x in f.all() if pr.is_running(x))
        c.ob("exclusive-start", tag + " cas", ok, f.here(), "running is not taken by one atomic test-and-set from false to true")
        if not cas:
            continue

        def step(x, st):
            phase, started, shut, fresh, cleared, off, exc, waited = st
            e = pr.ev(x)
            if phase == "idle":
                if e or pr.is_wait(x) or pr.is_alert_flag(x) or x.op == "store" and (pr.is_running(x) or pr.is_seq(x)):
                    fail("exclusive-start", x, "a second run has an effect before it is refused")
                    return None
                if x.op == "ret":
                    fail("exclusive-start", x, "run returns although it did not take the running flag")
                    return None
                return st
            if off and (e or pr.is_wait(x) or x.op == "store" and pr.is_seq(x)):
                fail("running-until-done", x, "work goes on after the processor reported itself stopped")
                return None
            if pr.is_alert_flag(x):
                if waited:
                    fail("alert-cleared-first", x, "the alert is cleared again after waiting began: a halt can be lost")
                v = x.ops[1] if x.op == "atomicrmw" else x.ops[0]
                cleared, fresh = True, False
                if not (x.op == "atomicrmw" and x.get("ord") in ("acq_rel", "seq_cst")):
                    fail("halt-not-lost", x, "clearing the alert does not synchronise with a halt before it")
                return (phase, started, shut, fresh, cleared, off, exc, waited)
            if pr.is_running(x) and x.op in ("store", "atomicrmw"):
                v = x.ops[0] if x.op == "store" else x.ops[1]
                if lin(f, v).const() != 0:
                    fail("running-cleared", x, "the running flag is set again")
                    return None
                if x.get("ord") not in REL:
                    fail("running-cleared", x, "running is cleared without release ordering")
                return (phase, started, shut, fresh, cleared, True, exc, waited)
            if e == "on_start":
                if started or waited:
                    fail("start-before-events", x, "the start handler runs again or after waiting began")
                    return None
                if not cleared:
                    fail("halt-not-lost", x, "the alert is cleared after the start handler: a halt issued meanwhile is lost")
                return (phase, 1, shut, fresh, cleared, off, exc, waited)
            if e == "on_shutdown":
                if shut:
                    fail("shutdown-once", x, "the shutdown handler runs twice")
                    return None
                return (phase, started, 1, fresh, cleared, off, exc, waited)
            if pr.is_wait(x):
                if shut:
                    fail("shutdown-once", x, "events are processed after the shutdown handler")
                    return None
                if pr.batch and not started:
                    fail("start-before-events", x, "waiting begins before the start handler ran")
                if not cleared:
                    fail("alert-cleared-first", x, "a stale alert is not cleared before waiting")
                if not fresh:
                    fail("halt-not-lost", x, "waiting begins without looking at the running flag since the alert was cleared: a halt before that is lost")
                return (phase, started, shut, fresh, cleared, off, exc, 1)
            if x.op in ("ret", "resume") or is_throw(x) and f.term(x.blk).op != "invoke" and x.op == "call":
                if not off:
                    fail("running-cleared", x, "run is left while the processor still reports itself running")
                if pr.batch and waited and not shut:
                    fail("shutdown-once", x, "run is left without the shutdown handler")
                return None
            return st

        def edge(a, b, st):
            phase, started, shut, fresh, cleared, off, exc, waited = st
            t = f.term(a)
            if phase == "idle":
                v, m = branch_on(f, a)
                if m and isinstance(v, int) and v in f.insts:
                    y = f.insts[v]
                    if y.op == "extractvalue" and y.ops[0] == cas[0].i and y.get("idx", [None])[0] == 1 and m[b] or \
                            y is cas[0] and y.op == "atomicrmw" and not m[b] or \
                            y.op == "extractvalue" and y.ops[0] == cas[0].i and y.get("idx", [None])[0] == 0 and cas[0].get("weak") is not True and not m[b]:
                            return ("own", 0, 0, False, False, False, None, 0)
                # exceptional exits of an idle run are the refusal
                return st
            v, m = branch_on(f, a)
            if m and isinstance(v, int) and v in f.insts:
                y = f.insts[v]
                if y.op == "load" and pr.is_running(y):
                    if m[b]:
                        fresh = True
                    else:
                        if exc == "alert":
                            exc = "stop"
            if t.op == "invoke" and b == t.get("unwind") and not (t.callee or "").startswith("__cxa"):
                exc = "wait" if pr.is_wait(t) else ("event" if pr.ev(t) == "on_event" else "other")
            ty, cm = catch_test(f, a)
            if ty and b in cm:
                if exc == "wait":
                    # a wait is left by alert or timeout only (C06)
                    if ty == ALERT and cm[b]:
                        exc = "alert"
                        fresh = False
                    elif ty == TIMEOUT and cm[b]:
                        exc = "timeout"
                elif exc == "wait-not-alert" and ty == TIMEOUT and not cm[b]:
                    return None
            return (phase, started, shut, fresh, cleared, off, exc, waited)
        explore(f, [(f.entry, 0, ("idle", 0, 0, False, False, False, None, 0))], step, edge)
        for r in rules:
            if not pr.batch and r in ("start-before-events", "shutdown-once"):
                continue
            b = bad.get(r)
            c.ob(r, tag, b is None, f.where(b[0]) if b else f.here(), b[1] if b else "")
        # handler exceptions at start and shutdown go to their own callbacks
        if pr.batch:
            for ev, cb in (("on_start", "on_start_exception"), ("on_shutdown", "on_shutdown_exception"), ("on_timeout", "on_event_exception"), ("on_event", "on_event_exception")):
                xs = [x for x in f.all() if pr.ev(x) == ev]
                c.ob("callback-present", tag + " " + ev, bool(xs), f.here(), "%s is never called" % ev)
                for x in xs:
                    ok = x.op == "invoke" and reports(pr, x, cb)
                    c.ob("exception-reported", tag + " " + ev, ok, f.where(x), "a standard exception thrown by %s does not reach %s" % (ev, cb))
        # the alert ends the loop exactly when halted
        c.ob("halt-ends-run", tag, alert_stops(pr), f.here(), "a halt seen while waiting does not end the run")
    for cls in (BATCH, NOOP):
        for h in p.find(cls + "::halt"):
            c.analysed(h)
            halt_rules(c, h, "%s::halt %s" % (cls.split("::")[1], kind(h)))
        for h in p.find(cls + "::is_running"):
            for r in [x for x in h.all() if x.op == "ret"]:
                v, pol = bool_root(h, r.ops[0])
                x = h.insts.get(v) if isinstance(v, int) else None
                ok = x is not None and x.op == "load" and h.addr(x.ops[0]).key().startswith("this.running") and pol and x.get("ord") in ACQ
                c.ob("running-reported", "%s::is_running %s" % (cls.split("::")[1], kind(h)), ok, h.where(r), "is_running does not report the running flag")
        for h in p.find(cls + "::" + cls.split("::")[1]):
            pr = Proc(h, cls == BATCH)
            st = [x for x in h.all() if x.op == "store" and pr.is_running(x)]
            c.ob("starts-stopped", "%s() %s" % (cls.split("::")[1], kind(h)), bool(st) and all(lin(h, x.ops[0]).const() == 0 for x in st), h.here(), "a new processor reports itself running")


def reports(pr, x, cb):
    """From the exceptional exit of x, when the exception is a standard one (and
    not a control exception), every path calls cb before leaving or going on."""
    f = pr.f
    bad = []
    hit = []

    def step(y, st):
        if pr.ev(y) == cb:
            hit.append(y)
            return None
        if y.op in ("ret", "resume") or pr.is_wait(y) or pr.ev(y) in ("on_event", "on_shutdown"):
            bad.append(y)
            return None
        return st

    def edge(a, b, st):
        ty, m = catch_test(f, a)
        if ty and b in m:
            if ty == "_ZTISt9exception":
                return st if m[b] else None
            return None if m[b] else st
        return st
    explore(f, [(x.get("unwind"), 0, 0)], step, edge)
    return bool(hit) and not bad


def alert_stops(pr):
    """After catching the alert with running false no further wait is made."""
    f = pr.f
    seen = []
    bad = []
    # start: exceptional exit of a wait, exception = alert, running = false
    for w in f.all():
        if not (pr.is_wait(w) and w.op == "invoke"):
            continue

        def step(y, st):
            if y.op == "ret":
                seen.append(y)
                return None
            if pr.is_wait(y):
                bad.append(y)
                return None
            return st

        def edge(a, b, st):
            ty, m = catch_test(f, a)
            if ty and b in m and st == "exc":
                if ty == ALERT:
                    return "caught" if m[b] else None
                return None if m[b] else st
            v, m = branch_on(f, a)
            if m and isinstance(v, int) and v in f.insts and f.insts[v].op == "load" and pr.is_running(f.insts[v]):
                return None if m[b] else st
            return st
        explore(f, [(w.get("unwind"), 0, "exc")], step, edge)
    return bool(seen) and not bad


def halt_rules(c, h, tag):
    pr = Proc(h, True)
    bad = []

    def step(x, st):
        if pr.is_running(x) and x.op in ("store", "atomicrmw"):
            if lin(h, x.ops[0] if x.op == "store" else x.ops[1]).const() == 0:
                if x.get("ord") not in REL:
                    bad.append((x, "running is cleared without release ordering"))
                return "off"
            bad.append((x, "halt sets running"))
        if pr.is_alert_flag(x) and st != "off":
            bad.append((x, "the alert is raised before running is cleared: the alert can be taken for a stale one"))
        elif pr.is_alert_flag(x):
            return "alerted"
        if x.op == "ret":
            if st != "alerted":
                bad.append((x, "halt does not clear running and then alert the barrier"))
            return None
        return st
    explore(h, [(h.entry, 0, "on")], step)
    c.ob("halt-order", tag, not bad, h.where(bad[0][0]) if bad else h.here(), bad[0][1] if bad else "")


# ------------------------------------------------------------------ C09
@prop("C09", "symbolic typestate (next sequence, published progress, available sequence) over every path of the processors' run loop",
      "For every batch length and every pattern of handler exceptions: sequences are delivered one by one without gap, repetition or overtaking what is available, and progress is published only behind delivery. Handlers that throw the library's own alert or timeout exceptions are outside the domain.")
def c09(c):
    c.assumption("an event handler does not throw alert_exception or timeout_exception itself")
    c.assumption("the barrier returns at least the sequence asked for minus one (C03, C06)")
    for p, pr in procs(c):
        f = pr.f
        tag = tagof(pr)
        for x in f.all():
            if pr.is_wait(x):
                pass
        set_hooks(f, {x.i: [lin(f, x.ops[1]).plus(-1) - V(x.i)] for x in f.all() if pr.is_wait(x)})
        bad = {}

        def fail(rule, x, msg):
            bad.setdefault(rule, (x, msg))
        loads = [x for x in f.all() if x.op == "load" and pr.is_seq(x)]
        c.need(loads, "%s never reads its sequence" % tag)
        seen = {"wait": 0, "event": 0, "store": 0, "exc": 0}

        # state: N (next to deliver), S (published position), A (available), mode, exc
        def step(x, st):
            N, S, A, mode, exc = st
            if x.op == "load" and pr.is_seq(x):
                S2 = tuple(list(S or ()) + [V(x.i)])[:6]
                if not N:
                    N = (V(x.i).plus(1),)
                return (N, S2, A, mode, exc)
            e = pr.ev(x)
            if pr.is_wait(x):
                seen["wait"] += 1
                a = lin(f, x.ops[1])
                if not same(f, x, a, N):
                    fail("asks-for-next", x, "the wait is not for the sequence after the last one handled")
                if not same(f, x, a.plus(-1), S):
                    fail("progress-published", x, "waiting begins before the handled events are published as consumed")
                return (N, S, (V(x.i),), "wait", exc)
            if e == "on_event":
                seen["event"] += 1
                if mode == "failed":
                    fail("failed-event-reported", x, "delivery continues although a failed event was not reported")
                # this, event, sequence, end of batch
                seq = lin(f, x.ops[2])
                if not same(f, x, seq, N):
                    fail("delivered-in-order", x, "the delivered sequence is not the next one")
                fa = facts_at(f, x)
                if not any(fa.entails(n - a) for n in N for a in (A or ())):
                    fail("delivered-available", x, "an event can be delivered that is not available yet")
                eob = x.ops[3]
                if not eob_ok(f, x, eob, N, A):
                    fail("end-of-batch", x, "the end-of-batch flag is not 'last available event'")
                if not ring_slot(f, x.ops[1], N):
                    fail("delivered-slot", x, "the event handed over is not the one at that sequence")
                return (N, S, A, "event", exc)
            if e == "on_event_exception" and mode in ("failed", "reporting"):
                seen["exc"] += 1
                if not same(f, x, lin(f, x.ops[2]), N):
                    fail("exception-sequence", x, "the exception is reported for another sequence than the failed one")
                return (N, S, A, "reporting", exc)
            if x.op == "store" and pr.is_seq(x):
                seen["store"] += 1
                v = lin(f, x.ops[0])
                fa = facts_at(f, x)
                if x.get("ord") not in REL:
                    fail("progress-release", x, "progress is published without release ordering")
                if pr.batch:
                    if not any(fa.entails(v - n.plus(-1)) for n in N):
                        fail("progress-behind-delivery", x, "progress is published past events that were not delivered")
                else:
                    if mode == "failed" or exc:
                        pass
                    elif not any(fa.entails(v - a) for a in (A or ())):
                        fail("progress-behind-delivery", x, "progress is published past what is available")
                    N = tuple(r.plus(1) for r in aliases(f, x, v))
                return (N, aliases(f, x, v), A, mode, exc)
            if x.op in ("atomicrmw", "cmpxchg") and pr.is_seq(x):
                fail("progress-behind-delivery", x, "the sequence is changed by a read-modify-write")
                return None
            return (N, S, A, mode, exc)

        def edge(a, b, st):
            N, S, A, mode, exc = st
            t = f.term(a)
            if t.op == "invoke" and not (t.callee or "").startswith("__cxa"):
                e = pr.ev(t)
                if pr.is_wait(t):
                    if b == t.get("unwind"):
                        exc, A = "wait", ()
                elif e == "on_event":
                    if b == t.get("unwind"):
                        mode, exc = "failed", "event"
                    else:
                        N, mode = tuple(n.plus(1) for n in N), "run"
                elif e == "on_event_exception" and mode == "reporting":
                    if b == t.get("normal"):
                        N, mode = tuple(n.plus(1) for n in N), "run"
                        exc = None
                elif b == t.get("unwind"):
                    exc = "other"
            ty, m = catch_test(f, a)
            if ty and b in m:
                if exc == "wait":
                    if ty == ALERT:
                        if m[b]:
                            exc = None
                        else:
                            exc = "wait-t"
                    elif ty == TIMEOUT:
                        if m[b]:
                            exc = None
                        else:
                            exc = "wait-a"
                    elif m[b] is True:
                        return None
                elif exc in ("wait-t", "wait-a"):
                    # the other control exception is the only one left
                    if ty in (ALERT, TIMEOUT):
                        if not m[b]:
                            return None
                        exc = None
                    else:
                        return None
                elif exc == "event" and ty in (ALERT, TIMEOUT) and m[b]:
                    return None
            return (move(f, N, a, b), move(f, S, a, b), move(f, A, a, b), mode, exc)
        explore(f, [(f.entry, 0, ((), (), (), "start", None))], step, edge)
        c.need(seen["wait"] and seen["store"], "no wait or no progress in %s" % tag)
        c.ob("delivers", tag, seen["event"] > 0 or not pr.batch, f.here(), "no event is ever delivered")
        rules = ["asks-for-next", "progress-published", "progress-release", "progress-behind-delivery"]
        if pr.batch:
            rules += ["delivered-in-order", "delivered-available", "delivered-slot", "end-of-batch", "exception-sequence", "failed-event-reported"]
        for r in rules:
            b = bad.get(r)
            c.ob(r, tag, b is None, f.where(b[0]) if b else f.here(), b[1] if b else "")
        for x in f.all():
            if pr.ev(x) == "on_timeout":
                z = lin(f, x.ops[1]).atom()
                y = f.insts.get(z[1]) if z and z[0] == "v" else None
                c.ob("timeout-sequence", tag, y is not None and y.op == "load" and pr.is_seq(y), f.where(x), "a timeout is not reported with the last handled sequence")
    for cls in (BATCH, NOOP):
        for g in p.find(cls + "::get_sequence"):
            for r in [x for x in g.all() if x.op == "ret"]:
                ok = g.addr(r.ops[0]).key().startswith("this.sequence_.")
                c.ob("own-sequence", "%s::get_sequence %s" % (cls.split("::")[1], kind(g)), ok, g.where(r), "another sequence than the published progress is handed out for gating")


def eob_ok(f, x, v, N, A):
    if not A:
        return False
    fa = facts_at(f, x)
    cs = bool_cases(f, v, fa, x.blk)
    if not cs:
        return False
    for st, val in cs:
        ok = False
        for n in N:
            for a in A:
                d = n - a
                if val and st.entails(d) and st.entails(d.scale(-1)):
                    ok = True
                if not val and st.entails(d.plus(1)):
                    ok = True
        if not ok:
            return False
    return True


def ring_slot(f, v, N):
    a = f.addr(v)
    if not a.var or len(a.var) != 1:
        return False
    if not a.key().startswith("this.ring_buffer_->"):
        return False
    iv, scale = a.var[0]
    b = bits(f, iv)
    r = bit_root(b)
    if r is None:
        return False
    k = [p[2] for p in b if isinstance(p, tuple)]
    if k != list(range(len(k))) or not k:
        return False
    if lin(f, r) in N:
        return True
    return same(f, f.insts[v] if v in f.insts else f.insts[r], lin(f, r), N)
