"""Waiting for published sequences: results, wake-ups and alerts."""
import re

from ..core import prop
from ..flow import (Lin, cases, dominators, explore, facts, facts_at, lin, loops, sccs, is_throw, locksets, lock_op, mutex_key,
                    thrown_type)
from ..ir import AnalysisBroken
from ..rec import V, bits, bool_root, branch_on, throw_types, throws_only

ACQ = ("acquire", "seq_cst", "acq_rel")
REL = ("release", "seq_cst", "acq_rel")
STRATEGIES = [
    ("blocking_wait_strategy", "blocking_wait_strategy"),
    ("lite_blocking_wait_strategy", "lite_blocking_wait_strategy"),
    ("timeout_blocking_wait_strategy", "timeout_blocking_wait_strategy<1000>"),
    ("busy_spin_wait_strategy", "busy_spin_wait_strategy"),
    ("sleeping_wait_strategy", "sleeping_wait_strategy<200>"),
    ("yielding_wait_strategy", "yielding_wait_strategy<100>"),
    ("phased_backoff_wait_strategy", "phased_backoff_wait_strategy<100,1000,blocking_wait_strategy>"),
]
STRATEGIES_MORE = [("phased_backoff_wait_strategy", "phased_backoff_wait_strategy<100,1000,lite_blocking_wait_strategy>"),
                   ("phased_backoff_wait_strategy", "phased_backoff_wait_strategy<100,1000,timeout_blocking_wait_strategy<500>>"),
                   ("sleeping_wait_strategy", "sleeping_wait_strategy<0>")]
ALERT = "_ZTIN13disruptor4cpp15alert_exceptionE"
TIMEOUT = "_ZTIN13disruptor4cpp17timeout_exceptionE"


def strategies(c):
    from concurrent.futures import ThreadPoolExecutor
    lst = STRATEGIES + (STRATEGIES_MORE if c.thorough else [])

    def one(sd):
        short, d = sd
        p = c.program("disruptor.cpp", [r"^(long )?disruptor4cpp::%s.*::(wait_for<|signal_all_when_blocking\()" % short],
                      keep=[r"fixed_sequence_group<.*>::get\("], defs=["KWS=" + d])
        return short, d, p
    with ThreadPoolExecutor(8) as ex:
        for short, d, p in ex.map(one, lst):
            w = p.find("disruptor4cpp::%s::wait_for" % short)
            s = p.find("disruptor4cpp::%s::signal_all_when_blocking" % short)
            for f in w + s:
                c.analysed(f)
            yield d, w, s[0]


def kind_of(f):
    return "multi" if "multi_producer" in f.dem else "single"


def is_group_get(f, x):
    return x.is_call() and (x.callee or "").endswith("fixed_sequence_group::get")


def on_arg(f, v, n):
    """Address v lies in the object passed as argument n."""
    a = f.addr(v)
    return a.root[0] == "arg" and a.root[2] == n


def derived(f, v, ok, depth=8):
    """Every source of v (through phis, selects) satisfies ok."""
    if not isinstance(v, int) or v < len(f.args) or depth < 0:
        return False
    x = f.insts[v]
    if ok(x):
        return True
    if x.op == "phi":
        return all(a == v or derived(f, a, ok, depth - 1) for a, _ in x.get("inc"))
    if x.op == "select":
        return all(derived(f, a, ok, depth - 1) for a in x.ops[1:])
    if x.op == "freeze":
        return derived(f, x.ops[0], ok, depth - 1)
    return False


def cond_waits(f):
    return [x for x in f.all() if x.is_call() and re.search(r"condition_variable(_any)?::wait(_for|_until)?$", x.callee or "")]


def cond_key(f, v):
    k = f.addr(v).key()
    i = k.find("._M_cond")
    return k[:i] if i >= 0 else k


def polls(f, barrier=4):
    """Blocks that test the barrier's alert flag: {block: (load, pass edge)}."""
    r = {}
    for b in f.order:
        v, m = branch_on(f, b)
        if not m or not isinstance(v, int) or v < len(f.args):
            continue
        x = f.insts[v]
        if x.op == "load" and on_arg(f, x.ops[0], barrier):
            for s, truth in m.items():
                if truth and throws_only(f, s) and throw_types(f, s) == {ALERT}:
                    r[b] = (x, [z for z in m if z != s][0])
    return r


@prop("C06", "value-provenance and linear-inequality dataflow over every wait strategy, the barrier and its construction",
      "For all seven strategies on every path: what a wait returns was read from the dependency group after which it is at least the sequence asked for; only alert and timeout exceptions leave a wait. How long a wait takes is not decided.")
def c06(c):
    c.assumption("the group minimum reads every member (C11)")
    for d, ws, sg in strategies(c):
        for f in ws:
            tag = "%s %s" % (d, kind_of(f))
            rs = [x for x in f.all() if x.op == "ret"]
            c.need(rs, "%s never returns" % f.dem)
            for r in rs:
                fa = facts_at(f, r)
                dep = [x for x in f.all() if is_group_get(f, x) and on_arg(f, x.ops[0], 3)]
                ok = derived(f, r.ops[0], lambda x: x in dep) or \
                    all(any(st.entails(lin(f, v) - V(x.i)) for x in dep) for st, v in cases(f, r.ops[0], fa, r.blk))
                c.ob("result-from-dependencies", tag, ok, f.where(r), "the result is not a reading of the sequences this consumer depends on")
                good = all(st.entails(V(1) - lin(f, v)) for st, v in cases(f, r.ops[0], fa, r.blk))
                c.ob("result-reached", tag, good, f.where(r), "the wait can return although the sequence is not available yet")
            for x in f.all():
                if is_throw(x):
                    ty = thrown_type(x)
                    allowed = ty == ALERT or ty == TIMEOUT and "timeout" in d
                    c.ob("exception-kind", tag, allowed, f.where(x), "the wait is left by an unexpected exception %s" % ty)
                    if ty == TIMEOUT:
                        c.ob("timeout-only-when-elapsed", tag, timeout_guard(f, x), f.where(x), "timeout is reported although the timed wait did not time out")
                    if ty == ALERT:
                        ps = polls(f)
                        ok = any(x.blk in reach_blocks(f, s) for b, (l, _) in ps.items() for s in f.succ[b] if s != ps[b][1])
                        c.ob("alert-only-when-alerted", tag, ok, f.where(x), "an alert is raised without the alert flag")
            if "timeout" in d and "phased" not in d:
                c.ob("timeout-reported", tag, any(is_throw(x) and thrown_type(x) == TIMEOUT for x in f.all()), f.here(), "an elapsed wait is not reported")
                bad = untimed(f)
                c.ob("timeout-covers-the-wait", tag, not bad, f.where(f.term(bad[0])) if bad else f.here(), "the consumer can wait without a time limit for a sequence that is not published yet")
    barrier_rules(c)


def untimed(f):
    """Waiting loops without a timed sleep that can be entered although the
    cursor was never seen at the sequence asked for."""
    timed = {x.blk for x in cond_waits(f)}
    loops_ = [comp for comp in sccs(f) if not comp & timed]
    bad = []

    def edge(a, b, st):
        if any(b in comp and a not in comp for comp in loops_) and not st:
            g = facts(f).get(a)
            t = f.term(a)
            if g is None or not reached(a, b, t, g):
                bad.append(b)
        return st or reached_edge(a, b)

    def reached(a, b, t, g):
        g = g.copy()
        if t.op == "br" and t.ops and isinstance(t.ops[0], int) and len(set(t.get("succ"))) == 2:
            g.assume(f, t.ops[0], b == t.get("succ")[0])
        return any(g.entails(V(1) - V(z.i)) for z in f.all() if z.op == "load" and on_arg(f, z.ops[0], 2) or is_group_get(f, z) and on_arg(f, z.ops[0], 3))

    def reached_edge(a, b):
        g = facts(f).get(a)
        return g is not None and reached(a, b, f.term(a), g)
    seen, todo = set(), [(f.entry, False)]
    while todo:
        a, st = todo.pop()
        if (a, st) in seen:
            continue
        seen.add((a, st))
        for b in f.succ[a]:
            todo.append((b, edge(a, b, st)))
    return bad


def reach_blocks(f, b):
    seen, st = set(), [b]
    while st:
        z = st.pop()
        if z not in seen:
            seen.add(z)
            st += f.succ[z]
    return seen


def timeout_guard(f, x):
    """Every path to x passes a branch on the status of a timed wait (timeout)."""
    tests = []
    for b in f.order:
        t = f.term(b)
        if t.op != "br" or not t.ops or not isinstance(t.ops[0], int):
            continue
        v, pol = bool_root(f, t.ops[0])
        cz = f.insts.get(v)
        if cz is None:
            continue
        if cz.is_call() and re.search("condition_variable.*::wait_(for|until)$", cz.callee or ""):
            s = t.get("succ")
            tests.append((b, s[0] if pol else s[1]))
        elif cz.op == "icmp" and isinstance(cz.ops[0], int) and cz.ops[0] in f.insts and re.search("condition_variable.*::wait_(for|until)$", f.insts[cz.ops[0]].callee or ""):
            k = lin(f, cz.ops[1]).const()
            s = t.get("succ")
            eq = cz.get("pred") == "eq"
            if k == 1 and pol:
                tests.append((b, s[0] if eq else s[1]))
            elif k == 0 and pol:
                tests.append((b, s[1] if eq else s[0]))
    if not tests:
        return False
    seen, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == x.blk:
            return False
        st += [s for s in f.succ[b] if (b, s) not in tests]
    return True


def barrier_rules(c):
    p = c.program("disruptor.cpp", [r"^disruptor4cpp::sequence_barrier<", r"disruptor4cpp::ring_buffer<.*::new_barrier", r"disruptor4cpp::(multi|single)_producer_sequencer<.*::new_barrier"],
                  keep=[r"::wait_for<", r"::signal_all_when_blocking\(", r"::get_highest_published_sequence\(", r"fixed_sequence_group<.*>::get\(", r"sequence_barrier<.*>::sequence_barrier\("], inline=[r"^std::make_unique$"])
    for f in p.find("disruptor4cpp::sequence_barrier::wait_for"):
        c.analysed(f)
        tag = "sequence_barrier::wait_for %s" % kind_of(f)
        w = [x for x in f.calls(r"_wait_strategy::wait_for$")]
        c.ob("barrier-waits", tag, len(w) >= 1, f.here(), "the barrier does not wait through the strategy")
        for x in w:
            # this, seq, cursor, group, barrier
            own = [f.addr(o).key() for o in x.ops]
            ok = lin(f, x.ops[1]) == V(1) and own[2].startswith("this.") and own[3].startswith("this.dependent") and lin(f, x.ops[4]) == V(0)
            c.ob("barrier-wait-arguments", tag, ok, f.where(x), "the strategy is not given this barrier's own cursor, dependencies and the sequence asked for: %s" % own)
        for r in [x for x in f.all() if x.op == "ret"]:
            for st, v in cases(f, r.ops[0], facts_at(f, r), r.blk):
                z = f.insts.get(v) if isinstance(v, int) else None
                ok = False
                if z is not None and z in w:
                    ok = st.entails(lin(f, v).plus(1) - V(1))
                elif z is not None and z.is_call() and (z.callee or "").endswith("::get_highest_published_sequence"):
                    ok = lin(f, z.ops[1]) == V(1) and any(lin(f, z.ops[2]) == V(x.i) for x in w)
                c.ob("barrier-result-published", tag, ok, f.where(r), "the barrier can return a sequence that was not checked for publication")
        bad = early_wait(f)
        c.ob("barrier-polls-alert-first", tag, not bad, f.where(bad[0]) if bad else f.here(), "the wait starts without looking at the alert flag")
    # what a barrier depends on
    for f in p.find("disruptor4cpp::sequence_barrier::sequence_barrier"):
        c.analysed(f)
        tag = "sequence_barrier() %s" % kind_of(f)
        pb = [x for x in f.calls(r"std::vector::(push_back|emplace_back)$")]
        ins = [x for x in f.calls(r"std::vector::insert$")] + [x for x in f.calls(r"std::vector::(_M_range_insert|_M_assign_aux|assign)$")]
        from .ring import whole_push
        loop = [x for x in pb if whole_push(f, x, 4)]
        pb = [x for x in pb if x not in loop]
        ins += loop
        c.ob("barrier-follows-cursor", tag, bool(pb) and all(pushed_is(f, x, 3) for x in pb), f.where(pb[0]) if pb else f.here(), "without dependencies the barrier does not follow the cursor")
        c.ob("barrier-follows-dependencies", tag, bool(ins), f.where(ins[0]) if ins else f.here(), "the given dependencies are not taken over")
        for x in pb + ins:
            e = empty_test(f, x, 4)
            want = "empty" if x in pb else "nonempty"
            c.ob("barrier-choice", tag + (" cursor" if x in pb else " list"), e == want, f.where(x), "the dependency source is chosen by something else than whether dependencies were given")
        for x in ins:
            srcs = [f.addr(o).key() for o in x.ops] + [str(lin(f, o)) for o in x.ops]
            ends = x in loop or vec_ends(f, x, 4)
            c.ob("barrier-takes-all", tag, ends, f.where(x), "not all given dependencies are taken over")
        st = [x for x in f.all() if x.op == "store" and f.addr(x.ops[1]).key().startswith("this.alerted")]
        c.ob("barrier-starts-unalerted", tag, bool(st) and all(lin(f, x.ops[0]).const() == 0 for x in st), f.here(), "a new barrier is alerted")
    nb = p.find("disruptor4cpp::multi_producer_sequencer::new_barrier") + p.find("disruptor4cpp::single_producer_sequencer::new_barrier")
    for f in nb:
        c.analysed(f)
        tag = "new_barrier %s" % kind_of(f)
        cs = [x for x in f.calls(r"sequence_barrier::sequence_barrier$")]
        c.ob("new-barrier-builds", tag, len(cs) == 1, f.here(), "no barrier is built")
        for x in cs:
            k = [f.addr(o).key() for o in x.ops]
            ok = k[2].startswith("this.") and k[3].startswith("this.cursor") and x.ops[1] in thisargs(f)
            c.ob("new-barrier-arguments", tag, ok, f.where(x), "the barrier is not tied to this sequencer's wait strategy and cursor: %s" % k[1:4])
            given = [n for n, a in enumerate(f.args) if not a["sret"]][1:]
            copies = [y for y in f.calls(r"std::vector::vector$") if f.addr(y.ops[0]).key() == k[4]]
            if given:
                ok = any(len(y.ops) > 1 and on_arg(f, y.ops[1], given[0]) for y in copies) or on_arg(f, x.ops[4], given[0])
                c.ob("new-barrier-dependencies", tag, ok, f.where(x), "the sequences to track are not handed to the barrier")


def thisargs(f):
    return [n for n, a in enumerate(f.args) if not a["sret"]][:1]


def early_wait(f):
    """Waits of barrier.wait_for reached without polling the alert flag."""
    ps = polls(f, 0)
    bad = []

    def step(x, st):
        if x.is_call() and (x.callee or "").endswith("_wait_strategy::wait_for") and not st:
            bad.append(x)
            return None
        return st

    def edge(a, b, st):
        if a in ps and b == ps[a][1]:
            return True
        return st
    explore(f, [(f.entry, 0, False)], step, edge)
    return bad


def pushed_is(f, x, arg):
    """The pushed element (by reference) holds argument `arg`'s address."""
    v = x.ops[1]
    if on_arg(f, v, arg):
        return True
    a = f.addr(v)
    for y in f.all():
        if y.op == "store" and f.addr(y.ops[1]).key() == a.key() and on_arg(f, y.ops[0], arg):
            return True
    return False


def vec_ends(f, x, arg):
    """Among the operands (by value or through temporaries) are begin and end of
    the vector argument."""
    have = set()
    for o in x.ops:
        todo = [o]
        a = f.addr(o)
        if a.root[0] == "alloca":
            todo += [y.ops[0] for y in f.all() if y.op == "store" and f.addr(y.ops[1]).key() == a.key()]
        for v in todo:
            if isinstance(v, int) and v in f.insts and f.insts[v].op == "load":
                b = f.addr(f.insts[v].ops[0])
                if b.root[0] == "arg" and b.root[2] == arg:
                    have.add(b.off)
    return {0, 8} <= have


def empty_test(f, x, arg):
    """Which way the emptiness test of the vector argument went before x."""
    dom = dominators(f)
    for b in dom[x.blk]:
        t = f.term(b)
        if t.op != "br" or not t.ops or not isinstance(t.ops[0], int) or len(set(t.get("succ"))) != 2:
            continue
        v, pol = t.ops[0], True
        y = f.insts.get(v)
        while y is not None and y.op == "xor":
            pol = not pol
            y = f.insts.get(y.ops[0])
        if y is None or y.op != "icmp" or y.get("pred") not in ("eq", "ne"):
            continue
        l = lin(f, y.ops[0]) - lin(f, y.ops[1])
        names = set()
        for a in flat_ids(l):
            z = f.insts.get(a)
            if z is not None and z.op == "load":
                k = f.addr(z.ops[0])
                if k.root[0] == "arg" and k.root[2] == arg:
                    names.add(k.off)
        if names != {0, 8}:
            continue
        eq = (y.get("pred") == "eq") == pol
        for i, s in enumerate(t.get("succ")):
            if s in dom[x.blk] or s == x.blk:
                others = [z for z in t.get("succ") if z != s]
                if x.blk in reach_blocks(f, s) and not any(x.blk in reach_blocks(f, o) for o in others):
                    return "empty" if (i == 0) == eq else "nonempty"
    return None


def flat_ids(l):
    from ..flow import atom_ids
    r = set()
    for a in l.t:
        r |= atom_ids(a)
    return r


# ------------------------------------------------------------------ C07
@prop("C07", "cycle, lock and typestate analysis of every wait strategy and of its signal operation, alert ordering in barrier and processors",
      "Every wait cycle polls the alert flag (or is bounded by a counter and a clock); every sleep re-reads cursor and alert after the point from which a signal can no longer be missed; every signal wakes all waiters under their mutex. Fairness of the scheduler is assumed.")
def c07(c):
    c.assumption("threads are scheduled fairly; a notified thread eventually runs; the clock advances")
    for d, ws, sg in strategies(c):
        cond = signal_rules(c, d, sg)
        for f in ws:
            wait_rules(c, d, f, sg, cond)
    alert_rules(c)


def signal_rules(c, d, f):
    """-> (set of condition variables always notified under a mutex, flag)"""
    ls = locksets(f)
    notif = {}
    for x in f.calls(r"condition_variable(_any)?::notify_(all|one)$"):
        k = cond_key(f, x.ops[0])
        notif.setdefault(k, []).append(x)
        c.ob("signal-wakes-all", d, x.callee.endswith("notify_all"), f.where(x), "only one of the waiting consumers is woken")
    r = {}
    for k, xs in notif.items():
        flag = None
        locks = None
        bad = []

        def step(x, st):
            if x in xs:
                return "done"
            if x.op == "ret":
                if st != "done":
                    bad.append(x)
                return None
            return st

        flags = {}

        def edge(a, b, st):
            v, m = branch_on(f, a)
            if m and isinstance(v, int) and v >= len(f.args):
                y = f.insts[v]
                if y.op == "atomicrmw" and y.get("rmw") == "xchg" and lin(f, y.ops[1]).const() == 0:
                    flags[f.addr(y.ops[0]).key()] = y
                    if m[b] is False:
                        return "done"
            return st
        explore(f, [(f.entry, 0, "none")], step, edge)
        c.ob("signal-on-every-path", d, not bad, f.where(bad[0]) if bad else f.here(), "a signal can be skipped although consumers sleep")
        for fk, y in flags.items():
            c.ob("signal-flag-order", d, y.get("ord") in ("acq_rel", "seq_cst"), f.where(y), "the sleepers' flag is taken without acquire-release ordering: the publication can be missed")
        for x in xs:
            # also a mutex taken and given back on every way to the signal
            have = ls[x.i] | taken_before(f, x)
            locks = have if locks is None else locks & have
        r[k] = (locks or frozenset(), list(flags))
    return r


def taken_before(f, x):
    """Mutexes that are taken at some point on every way to x: who looked at
    the state under one of them before that point is asleep by then."""
    got = []

    def step(y, st):
        lo = lock_op(f, y)
        if lo and lo[0] == "lock":
            st = st | {lo[1]}
        if y is x:
            got.append(st)
            return None
        return st
    explore(f, [(f.entry, 0, frozenset())], step)
    return frozenset.intersection(*got) if got else frozenset()


def wait_rules(c, d, f, sg, cond):
    tag = "%s %s" % (d, kind_of(f))
    ps = polls(f)
    for b, (l, _) in ps.items():
        c.ob("alert-acquire", tag, l.get("ord") in ACQ, f.where(l), "the alert flag is read without acquire ordering")
    for x in cond_waits(f):
        k = cond_key(f, x.ops[0])
        c.ob("sleep-has-signal", tag, k in cond, f.where(x), "nothing signals the condition this consumer sleeps on")
        locks, flags = cond.get(k, (frozenset(), []))
        held = locksets(f)[x.i]
        c.ob("sleep-under-signal-mutex", tag, bool(held & locks) or cond.get(k) is None, f.where(x), "the signal is sent without the mutex the consumer sleeps under: it can be missed")
        # timed waits re-examine by themselves, but must still not lose signals
    missed = sleep_typestate(f, ps, cond)
    for what in ("cursor", "alert", "flag"):
        bad = [m for m in missed if m[1] == what]
        if cond_waits(f):
            c.ob("recheck-before-sleep " + what, tag, not bad, f.where(bad[0][0]) if bad else f.here(),
                 {"cursor": "the consumer can sleep without having looked at the cursor since it could last be signalled",
                  "alert": "the consumer can sleep without having looked at the alert flag since it could last be signalled",
                  "flag": "the consumer can sleep without asking for a signal"}[what])
    # cycles
    for comp in sccs(f, lambda b: b not in ps):
        why = bounded_cycle(f, comp, ps)
        blk = sorted(comp)[0]
        c.ob("wait-cycle-polls-alert", tag, why is None, f.where(f.term(blk)), "a waiting loop never looks at the alert flag and is not bounded: %s" % why)
    gone = missing_blocks(f)
    for comp in sccs(f, lambda b: b not in gone):
        why = bounded_cycle(f, comp, ps)
        ok = why is None or counter_cycle(f, comp)
        c.ob("waits-only-while-missing", tag, ok, f.where(f.term(sorted(comp)[0])), "the consumer can keep waiting although the sequence it waits for has been reached")
    n = len([1 for comp in sccs(f)])
    c.ob("waits-in-a-loop", tag, n >= 1, f.here(), "there is no waiting loop")
    for x in f.calls(r"this_thread::sleep_for$"):
        v = sleep_ns(f, x)
        c.ob("sleep-is-short", tag, v is not None and 0 <= v <= 100_000_000, f.where(x), "the polling sleep is not a short constant (%s ns)" % v)


def latest(f, v, ids, comp, depth=4):
    """Is v, coming round a cycle, one of the readings made in it?"""
    if isinstance(v, int) and v in ids:
        return True
    x = f.insts.get(v) if isinstance(v, int) else None
    return x is not None and x.op == "phi" and x.blk in comp and depth > 0 and all(latest(f, w, ids, comp, depth - 1) for w, _ in x.get("inc"))


def missing_blocks(f):
    """Blocks inside a cycle that stay in it only when a fresh reading of the
    cursor or of the dependencies was below the sequence asked for."""
    r = set()
    for comp in sccs(f):
        for a in comp:
            t = f.term(a)
            if t.op != "br" or not t.ops or not isinstance(t.ops[0], int):
                continue
            reads = [z for b in comp for z in f.blocks[b] if is_group_get(f, z) and on_arg(f, z.ops[0], 3) or z.op == "load" and on_arg(f, z.ops[0], 2) and z.get("ord") in ACQ]
            ids = {z.i for z in reads}
            reads += [q for b in comp for q in f.blocks[b] if q.op == "phi" and all(latest(f, v, ids, comp) for v, frm in q.get("inc") if frm in comp)]
            stay = [s for s in t.get("succ") if s in comp]
            if len(stay) == 2 or not stay or facts(f).get(a) is None:
                continue
            g = facts(f)[a].copy()
            g.assume(f, t.ops[0], stay[0] == t.get("succ")[0])
            if any(g.entails(V(z.i).plus(1) - V(1)) for z in reads):
                r.add(a)
    return r


def sleep_ns(f, x):
    a = f.addr(x.ops[0])
    vals = set()
    for y in f.all():
        if y.op == "store" and f.addr(y.ops[1]).key() == a.key():
            vals.add(lin(f, y.ops[0]).const())
    if len(vals) != 1:
        return None
    v = vals.pop()
    m = re.search(r"duration<long, std::ratio<(\d+)l?, (\d+)l?", x.get("dem", "") or "")
    if m and v is not None:
        return v * int(m.group(1)) * 1_000_000_000 // int(m.group(2))
    return v


def sleep_typestate(f, ps, cond):
    """State: frozenset of what has been (re)examined since the last point from
    which every signal is seen."""
    missed = []
    waits = {x.i: x for x in cond_waits(f)}
    flags = {fk for _, fl in cond.values() for fk in fl}

    def step(x, st):
        lo = lock_op(f, x)
        if lo:
            return frozenset()
        if x.i in waits:
            if flags and "flag" not in st:
                missed.append((x, "flag"))
            if "cursor" not in st:
                missed.append((x, "cursor"))
            if "alert" not in st:
                missed.append((x, "alert"))
            return frozenset()
        if x.op in ("atomicrmw", "store", "cmpxchg"):
            k = f.addr(x.ops[1 if x.op == "store" else 0]).key()
            if k in flags:
                # asking for a signal: what was examined before counts no more
                good = x.op == "atomicrmw" and x.get("rmw") in ("xchg", "or") and lin(f, x.ops[1]).const() == 1 and x.get("ord") in ("acq_rel", "seq_cst")
                return frozenset(["flag"]) if good else frozenset()
        if x.op == "load" and on_arg(f, x.ops[0], 2) and x.get("ord") in ACQ:
            return st | {"read"}
        return st

    def edge(a, b, st):
        if a in ps and b == ps[a][1]:
            st = st | {"alert"}
        if "read" in st:
            # the reading said: not there yet
            t = f.term(a)
            if t.op == "br" and t.ops and isinstance(t.ops[0], int):
                fa = facts(f).get(a)
                y = f.insts.get(t.ops[0])
                if y is not None and y.op == "icmp":
                    g = fa.copy() if fa else None
                    if g is not None:
                        g.assume(f, t.ops[0], b == t.get("succ")[0])
                        for z in f.blocks[a]:
                            if z.op == "load" and on_arg(f, z.ops[0], 2) and g.entails(V(z.i).plus(1) - V(1)):
                                st = st | {"cursor"}
        if a != b:
            st = st - {"read"} if "read" in st and f.term(a).ops else st
        return st
    explore(f, [(f.entry, 0, frozenset())], step, edge)
    return missed


def bounded_cycle(f, comp, ps):
    """None when the cycle leaves towards polling within bounded work: removing
    the exits decided by a clock reading leaves only cycles with a counter."""
    for b in comp:
        for x in f.blocks[b]:
            if x.is_call() and re.search(r"condition_variable|mutex::lock$|future::(wait|get)|thread::join", x.callee or ""):
                return "it blocks (%s)" % f.where(x)
    clock = set()
    for b in comp:
        t = f.term(b)
        if t.op == "br" and t.ops and any(s not in comp for s in t.get("succ")):
            ids = clock_diff(f, t.ops[0])
            if ids and all(start_kept(f, q, b, comp) for q in flat_ids(clock_lin(f, t.ops[0])) if q not in ids):
                clock.add(b)
    if not clock:
        return "no exit depends on elapsed time"
    once = {s for _, s in set_once(f, comp) if len(f.pred[s]) == 1}
    rest = set(comp) - clock - once
    for sub in sccs(f, lambda b: b in rest):
        if not counter_cycle(f, sub):
            return "the inner loop has no decreasing counter"
    return None


def set_once(f, comp):
    """Edges taken while a start time is still zero, in cycles that then give it
    a clock reading: taken once."""
    r = set()
    for b in comp:
        t = f.term(b)
        if t.op != "br" or not t.ops or not isinstance(t.ops[0], int) or len(set(t.get("succ"))) != 2:
            continue
        x = f.insts.get(t.ops[0])
        if x is None or x.op != "icmp" or x.get("pred") not in ("eq", "ne"):
            continue
        d = lin(f, x.ops[0]) - lin(f, x.ops[1])
        if d.c or len(d.t) != 1:
            continue
        a, = d.t
        p = f.insts.get(a[1]) if a[0] == "v" else None
        if p is None or p.op != "phi" or p.blk not in comp:
            continue
        s = t.get("succ")[0 if x.get("pred") == "eq" else 1]
        src = set()

        def leaves(v, depth=0):
            if v == p.i:
                src.add("self")
            elif isinstance(v, int) and v in f.insts and f.insts[v].op == "phi" and depth < 5:
                for z, frm in f.insts[v].get("inc"):
                    leaves(z, depth + 1)
            elif isinstance(v, int) and v in f.insts and (f.insts[v].callee or "").endswith("::now"):
                src.add("now")
            else:
                src.add("other")
        for v, frm in p.get("inc"):
            if frm in comp:
                leaves(v)
        if src == {"self", "now"}:
            # from the zero edge on, every way back assigns the reading
            ok = all((f.insts[z].callee or "").endswith("::now") for z in once_values(f, p, s, comp))
            if ok:
                r.add((b, s))
    return r


def once_values(f, p, s, comp):
    """Values reaching phi p (around the cycle) on paths through block s."""
    out = set()
    seen = set()
    st = [(s, None)]
    # walk from s, following which value a merging phi takes
    work = [(s, frozenset())]
    while work:
        b, env = work.pop()
        if (b, env) in seen:
            continue
        seen.add((b, env))
        e = dict(env)
        for n in f.succ[b]:
            if n not in comp:
                continue
            e2 = dict(e)
            for q in f.blocks[n]:
                if q.op != "phi":
                    break
                for v, frm in q.get("inc"):
                    if frm == b and isinstance(v, int):
                        w = e.get(v, v)
                        if q.i == p.i:
                            out.add(w)
                        e2[q.i] = w
            if n != p.blk:
                work.append((n, frozenset(e2.items())))
    return {z for z in out if isinstance(z, int) and z in f.insts}


def clock_diff(f, v):
    x = f.insts.get(v) if isinstance(v, int) else None
    if x is None or x.op != "icmp":
        return None
    d = lin(f, x.ops[0]) - lin(f, x.ops[1])
    now = [a for a in flat_ids(d) if a in f.insts and f.insts[a].is_call() and (f.insts[a].callee or "").endswith("::now")]
    if not now:
        return None
    return now


def clock_lin(f, v):
    x = f.insts[v]
    return lin(f, x.ops[0]) - lin(f, x.ops[1])


def start_kept(f, q, b, comp):
    """A start time that the elapsed time is measured from stays what it is
    when the cycle goes on after the look at the clock in block b."""
    p = f.insts.get(q)
    if p is None or p.blk not in comp:
        return True
    if p.op != "phi":
        return False
    return all(once_values(f, p, s, comp) <= {p.i} for s in f.term(b).get("succ") if s in comp)


def counter_cycle(f, comp):
    """In the cycle a value decreases by a positive constant on every round and
    the cycle is left before it passes zero; or a start time is set only once."""
    heads = [b for b in comp if any(p not in comp for p in f.pred[b])]
    for h in heads:
        for p in [x for x in f.blocks[h] if x.op == "phi"]:
            ok = True
            n = 0
            for v, frm in p.get("inc"):
                if frm not in comp:
                    continue
                n += 1
                if not steps_down(f, v, p, comp, 0):
                    ok = False
            if ok and n:
                return True
    # inner cycles through a merge that is not a loop header of the function
    for b in comp:
        for p in [x for x in f.blocks[b] if x.op == "phi"]:
            ins = [(v, frm) for v, frm in p.get("inc") if frm in comp]
            if ins and all(steps_down(f, v, p, comp, 0) for v, _ in ins):
                return True
    return False


def steps_down(f, v, p, comp, depth):
    l = lin(f, v) - V(p.i)
    if not l.t:
        return l.c < 0 and leaves_at_zero(f, p, comp)
    if isinstance(v, int) and v in f.insts and f.insts[v].op == "phi" and depth < 4:
        q = f.insts[v]
        ins = [(a, frm) for a, frm in q.get("inc") if frm in comp]
        return bool(ins) and all(steps_down(f, a, p, comp, depth + 1) for a, _ in ins)
    return False


def leaves_at_zero(f, p, comp):
    """Somewhere in the cycle a comparison of the counter with a constant leaves it."""
    for b in comp:
        t = f.term(b)
        if t.op == "br" and t.ops and isinstance(t.ops[0], int) and any(s not in comp for s in f.succ[b]):
            x = f.insts.get(t.ops[0])
            if x is not None and x.op == "icmp":
                d = lin(f, x.ops[0]) - lin(f, x.ops[1])
                if set(d.t) == {("v", p.i)}:
                    return True
    return False


def alert_rules(c):
    p = c.program("disruptor.cpp", [r"^disruptor4cpp::sequence_barrier<.*>::(alert|clear_alert|check_alert|is_alerted)\(", r"disruptor4cpp::(batch|no_op)_event_processor<.*>::halt\("],
                  keep=[r"::signal_all_when_blocking\("])
    for n in ("disruptor4cpp::sequence_barrier::alert", "disruptor4cpp::batch_event_processor::halt", "disruptor4cpp::no_op_event_processor::halt"):
        for f in p.find(n):
            c.analysed(f)
            tag = "%s %s" % (n.split("::", 1)[1], kind_of(f) if "producer_sequencer" in f.dem else ("multi" if "type)1" in f.dem else "single"))
            bad = []

            def is_flag(x):
                return x.op in ("store", "atomicrmw") and "alerted" in f.addr(x.ops[1 if x.op == "store" else 0]).key().rsplit("->", 1)[-1]

            def step(x, st):
                if is_flag(x):
                    v = x.ops[0] if x.op == "store" else x.ops[1]
                    if lin(f, v).const() == 1:
                        if x.get("ord") not in REL:
                            bad.append((x, "the alert is raised without release ordering"))
                        return "raised"
                    return "none"
                if x.is_call() and (x.callee or "").endswith("::signal_all_when_blocking"):
                    return "signalled" if st == "raised" else st
                if x.op == "ret":
                    if st != "signalled":
                        bad.append((x, "waiters are not signalled after the alert is raised"))
                    return None
                return st
            explore(f, [(f.entry, 0, "none")], step)
            c.ob("alert-then-signal", tag, not bad, f.where(bad[0][0]) if bad else f.here(), bad[0][1] if bad else "")
    for f in p.find("disruptor4cpp::sequence_barrier::clear_alert"):
        c.analysed(f)
        w = [x for x in f.all() if x.op in ("store", "atomicrmw") and "alerted" in f.addr(x.ops[1 if x.op == "store" else 0]).key()]
        ok = bool(w) and all(x.op == "atomicrmw" and lin(f, x.ops[1]).const() == 0 and x.get("ord") in ("acq_rel", "seq_cst") for x in w)
        c.ob("alert-cleared-by-rmw", "clear_alert " + kind_of(f), ok, f.where(w[0]) if w else f.here(), "clearing the alert does not synchronise with a halt issued before it: the halt can be lost")
    for f in p.find("disruptor4cpp::sequence_barrier::is_alerted"):
        c.analysed(f)
        for r in [x for x in f.all() if x.op == "ret"]:
            v, pol = bool_root(f, r.ops[0])
            x = f.insts.get(v) if isinstance(v, int) else None
            ok = x is not None and x.op == "load" and "alerted" in f.addr(x.ops[0]).key() and pol and x.get("ord") in ACQ
            c.ob("alert-observable", "is_alerted " + kind_of(f), ok, f.where(r), "the alert flag is not what is reported")
