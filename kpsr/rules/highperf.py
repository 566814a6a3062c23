"""Event loop and data multiplexer: publishers, handlers, subscribers, life cycle of the consumer threads, providers."""
import os
import re

from ..build import VERIF
from ..cont import KEEP, show
from ..core import prop
from ..sem import cmpv, lsum, ptr, simp, truthy
from ..sym import linv
from .emitters import A, AN, equal, puts, held, is_arg, isnull, strip, textof_key, valdesc
from .fsm import where
from .publishers import QUIET, assigned, calls, captured, feasible, fn_at, is_param, kept, lambda_of, name_is, only, same, set_, text_kept, vname, ways
from .services import THIS

UNIT = os.path.join(VERIF, "units", "highperf.cpp")
HP = "kpsr::high_performance::"
RINGOPS = r"^disruptor4cpp::.*"
LIB = KEEP + [r"^std::unique_ptr::"]
CLAIM, PUBLISH, SLOT = r"_sequencer::(try_)?next$", r"_sequencer::publish$", r"ring_buffer::operator\[\]$"
CLOCK = "TimeUtils::getCurrentNanosecondsAsLlu"


def prog(c, roots, keep=()):
    return c.program(UNIT, [r".*kpsr::high_performance::%s.*" % r for r in roots], keep=[RINGOPS] + list(keep), libkeep=LIB)


def tyname(p, ty):
    """name of a type; pointers and references with a star or an ampersand in front"""
    t = p.types[ty] if ty is not None and ty >= 0 else None
    if t is not None and t.get("tag") in ("pointer_type", "reference_type", "rvalue_reference_type"):
        return ("*" if t["tag"] == "pointer_type" else "&") + tyname(p, t.get("base"))
    s = p.strip(ty)
    return re.sub(r"^std::", "", (p.types[s].get("name") or "") if s is not None else "")


def mems(c, p, cls, kinds):
    """names and offsets of the own members of a class (or of any instance of a class template) by their type"""
    for t in p.types:
        if re.match(re.escape(cls) + r"(<.*>)?$", t.get("q") or "") and t.get("mem") and "(anon)" not in t["q"]:
            o = {}
            for x in t["mem"]:
                n = tyname(p, x["ty"])
                for k, rx in kinds.items():
                    if re.match(rx, n) and not x["inh"]:
                        o.setdefault(k, (x["name"], x["off"]))
            for k in kinds:
                c.need(k in o, "%s has no member for %s" % (cls, k))
            return o
    c.need(False, "%s is gone" % cls)


STRING = r"(__cxx11::)?(basic_)?string(<|$)"
COUNT = r"(atomic<)?(unsigned long|long long unsigned|unsigned long long)"
RING = r"&?(disruptor4cpp::)?ring_buffer<"


def short(f):
    return re.sub(r"<.*>", "", f.sq.rsplit("::", 1)[1])


def base(v):
    return ptr(simp(v))[0]


def slot(t, v):
    """(access, offset) if v is an address inside a slot of the ring"""
    b, off, _ = ptr(simp(v))
    for z in t.ev:
        if z[0] == "CALL" and re.search(SLOT, z[1]) and z[3] is not None and simp(z[3]) == b:
            return z, off
    return None


def inner(L, e, v, k):
    """the shared pointer that a converted or copied one comes from"""
    t = L.of(e)
    for _ in range(6):
        v, k = t.origin(v, k)
        y = next((y for y in reversed(t.ev[:k]) if y[0] == "CALL" and re.search(r"_pointer_cast$", y[1]) and len(y[2]) == 2 and ptr(simp(y[2][0])) == ptr(simp(v))), None)
        if y is None:
            return simp(v), k
        v, k = y[2][1], t.at(y)
    return simp(v), k


def adds(t, path):
    """increments of a counter: list of amounts (None: something else)"""
    r = []
    for z in t.ev:
        if z[0] == "RMW" and path(z[1]):
            r.append(strip(z[2][1])[1] if z[5] == "add" and strip(z[2][1])[0] == "c" else None)
        elif z[0] == "STORE" and path(str(z[1])):
            ok = None
            for y in t.ev[:t.at(z)]:
                if y[0] == "LD" and y[1] == z[1] and linv(z[2][1]) == lsum(linv(y[3]), linv(("c", 1)), 1):
                    ok = 1
            r.append(ok)
    return r


def thrower(t):
    """what throws the exception that is caught first"""
    for i, z in enumerate(t.ev):
        if z[0] == "CATCH":
            return next((y for y in reversed(t.ev[:i]) if y[0] == "f.call" or y[0] == "CALL" and not QUIET.search(y[1])), None)
    return None


def last_call(t):
    return next((y for y in reversed(t.ev) if y[0] == "f.call" or y[0] == "CALL" and not QUIET.search(y[1]) and not y[1].startswith("__cxa")), None)


def on_ring(L, e, z, ring):
    return L.desc(e, z[2][0], L.of(e).at(z)).startswith(ring)


# ------------------------------------------------------------------ H01: publisher of the event loop
def plan(c, p, f, inst, ring, user, counter, steps, fields, shared=False):
    """all ways of one publication over the ring: (event, where, trace, claim, publish) of the successful ones"""
    L, ends, m = ways(c, f)
    good, full = [], 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        cl, pu = calls(t, CLAIM), calls(t, PUBLISH)
        if e.kind == "iter":
            ob("claimed-once", not cl and not pu, "a slot is claimed or published in a loop")
            continue
        if e.kind not in ("ret", "throw", "exc"):
            continue
        th = thrower(t) if [z for z in t.ev if z[0] == "CATCH"] else None
        if e.kind != "ret" and th is None:
            th = last_call(t)
        discards = adds(t, counter)
        acc = [z for z in t.ev if z[0] == "CALL" and re.search(SLOT, z[1])]
        fill = [z for z in t.ev if z[0] == "f.call" and user(L, e, z)]
        back = calls(t, r"_sequencer::claim$")
        if th is not None and th in cl:
            # no slot
            ob("full-touches-nothing", not acc and not pu and not fill and not back, "a publication that got no slot writes to the ring")
            if e.kind == "ret":
                full += 1
                ob("full-counted", discards == [1], "an event that is dropped because the ring is full is not counted exactly once")
                if shared:
                    c.ob("count-not-lost", inst, all(z[0] == "RMW" for z in t.ev if z[0] in ("RMW", "STORE") and counter(str(z[1]))), f.here(), "the dropped events of several threads are counted in a plain variable: counts get lost")
            continue
        if th is not None:
            if th in fill:
                rel = [z for z in back if t.at(z) > t.at(th) and cl and linv(z[2][1]) == lsum(linv(cl[0][3]), linv(("c", 1)), -1)]
                ob("slot-given-back", len(rel) == 1 and len(back) == 1 and not pu, "an exception of a user's function leaves a claimed slot unpublished for good")
            elif th[0] == "f.call" and not steps(L, e, th):
                ob("no-user-code", False, "%s can throw between claiming and publishing: the slot would be lost" % th[1])
            continue
        if e.kind != "ret":
            continue
        ob("claimed-once", len(cl) == 1 and cl[0][1].endswith("::try_next") and len(cl[0][2]) == 1 and on_ring(L, e, cl[0], ring), "not exactly one slot of the ring is claimed without waiting")
        ob("published-once", len(pu) == 1 and len(pu[0][2]) == 2, "not exactly one slot is published")
        ob("not-counted", not discards, "an event that is published is counted as dropped")
        ob("not-given-back", not back, "a slot that is published is given back")
        if len(cl) != 1 or len(pu) != 1 or len(pu[0][2]) != 2:
            continue
        seq = strip(cl[0][3])
        ob("own-slot", strip(pu[0][2][1]) == seq and on_ring(L, e, pu[0], ring) and all(strip(z[2][1]) == seq and on_ring(L, e, z, ring) for z in acc), "another slot than the claimed one is filled or published")
        for z in t.ev[t.at(cl[0]):t.at(pu[0])]:
            if z[0] == "f.call" and z not in fill:
                ob("no-user-code", steps(L, e, z), "%s runs between claiming and publishing" % z[1])
        late = [z for z in t.ev[t.at(pu[0]) + 1:] if z[0] in ("f.call", "COPY") or z[2] and z[0] not in ("LD",) and not z[0].endswith("dtor") and "::~" not in z[1] and slot(t, z[2][0])]
        ob("complete-before-publish", not late, "the slot is written after it was published")
        good.append((e, w, t, L, cl[0], pu[0], fill))
    c.ob("full-survived", inst, full > 0, f.here(), "a full ring is not reported by counting the event as dropped")
    c.ob("publishes", inst, bool(good), f.here(), "no event is ever published")
    return good


def functions(p, cls):
    """names of the own std::function members"""
    return sorted({x["name"] for t in p.types if re.match(re.escape(cls) + r"(<.*>)?$", t.get("q") or "") and t.get("mem") for x in t["mem"] if not x["inh"] and tyname(p, x["ty"]).startswith("function<")})


def member_of(L, e, v, k):
    """the name of the member of the object (also one captured by the closure) at an address"""
    n = L.desc(e, v, k)
    return re.sub(r"^this\.(this->)?", "", n) if n.startswith("this.") else None


def timed(c, t, L, e, off, ring, fns, hi):
    """is the time of the slot set, last, to what a time function of the publisher gave?"""
    st = [z for z in t.ev[:hi] if z[0] == "STORE" and slot(t, z[2][0]) and slot(t, z[2][0])[1] == off]
    if not st:
        return None
    v = strip(st[-1][2][1])
    for z in t.ev[:t.at(st[-1])]:
        if z[3] is not None and strip(z[3]) == v:
            if z[0] == "f.call":
                g = member_of(L, e, z[2][0], t.at(z))
                return g in fns
            if z[0] == "CALL" and z[1].endswith(CLOCK):
                return True
    return False


def step_body(c, q, inst, ring, F, fns):
    """a function that prepares a slot: it touches its own slot only, drops the old data at most and sets the time"""
    L, ends, m = ways(c, q)
    for e in ends:
        t, w = L.of(e), where(q, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        acc = [z for z in t.ev if z[0] == "CALL" and re.search(SLOT, z[1])]
        ob("own-slot", all(is_arg(strip(z[2][1]), A(q, 1)) for z in acc) and not [z for z in t.ev if z[0] == "CALL" and re.search(r"_sequencer::|batch_event", z[1])], "the preparation of a slot touches another one")
        for z in t.ev:
            if z[0] == "f.call":
                ob("no-user-code", member_of(L, e, z[2][0], t.at(z)) in fns, "%s runs between claiming and publishing" % z[1])
            s = slot(t, z[2][0]) if z[2] else None
            if s and (z[0] in ("p.assign", "p.swap", "p.ctor") and not (z[0] == "p.assign" and L.desc(e, z[2][1], t.at(z)) == "null") or z[0].startswith("s.")):
                ob("event-stored", False, "the preparation of a slot changes its content")
        if e.kind == "ret":
            ob("time-set", timed(c, t, L, e, F["time"][1], ring, fns, len(t.ev)) is True, "the time of the publication is not stored in the slot")


def time_source(c, p, f, L, e, member, inst, w):
    """the function that gives the time: the clock with a container, zero without one"""
    t = L.of(e)
    nul = isnull(t, A(f, 1))
    a = assigned(p, f, L, e, member)
    z = next((z for z in reversed(t.ev) if z[0] in ("f.ctor", "f.assign") and z[2] and t.name(z[2][0]).lstrip("&") == member), None)
    if z is None or len(z[2]) < 2:
        c.ob("time-source", inst, False, w, "nothing gives the time")
        return
    h = held(L, e, z[2][1], t.at(z))
    isclock = "getCurrentNanosecondsAsLlu" in str(h if h is not None else z[2][1]) or a is not None and a[0] == "lambda" and lambda_clock(c, a[1])
    zero = not isclock and a is not None and a[0] == "lambda" and gives_zero(c, a[1])
    if nul is not True:
        c.ob("time-source", inst, isclock, w, "publications are not timed although there is a container")
    else:
        c.ob("time-source", inst, isclock or zero, w, "the time of publications is something else than the clock or zero")


def lambda_clock(c, q):
    L, ends, _ = ways(c, q)
    return all(len(calls(L.of(e), CLOCK + "$")) == 1 and strip(calls(L.of(e), CLOCK + "$")[0][3]) == strip(e.val) for e in ends if e.kind == "ret")


def gives_zero(c, q):
    L, ends, _ = ways(c, q)
    return all(e.val is not None and strip(e.val) == ("c", 0) for e in ends if e.kind == "ret")


@prop("H01", "path-sensitive analysis of a publication over the ring, closures resolved to their bodies",
      "All paths of the publication and of the constructor, a full ring and any event, name, pool size and mode included; the ring itself is P01-P04's and N01-N04's subject.")
def h01(c):
    PUB = HP + "EventLoopPublisher"
    p = prog(c, ["EventLoopPublisher"], [r"^kpsr::ObjectPoolPublisher<.*"])
    F = mems(c, p, HP + "EventloopDataWrapper", {"name": STRING, "data": r"shared_ptr<", "time": COUNT})
    M = mems(c, p, PUB, {"name": STRING, "count": COUNT, "ring": RING})
    fns = functions(p, PUB)
    ring, name, count = ("this." + M[k][0] for k in ("ring", "name", "count"))
    instances = [f for f in p.fns.values() if f.sq == PUB + "::internalPublish"]
    c.need(instances, "%s::internalPublish is gone" % PUB)
    f = instances[0]
    inst = "publish"
    called = set()

    def steps(L, e, z):
        g = member_of(L, e, z[2][0], L.of(e).at(z))
        called.add(g)
        return g in fns
    for e, w, t, L, cl, pu, fill in plan(c, p, f, inst, ring, lambda L, e, z: False, lambda n: n == count, steps, F, shared=True):
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        k = t.at(pu)
        wr = lambda off, ops: [z for z in t.ev[:k] if z[2] and z[0] in ops and slot(t, z[2][0]) and slot(t, z[2][0])[1] == off]
        d = wr(F["data"][1], ("p.assign", "p.reset", "p.swap"))
        ok = bool(d) and d[-1][0] in ("p.assign", "p.swap") and len(d[-1][2]) > 1
        if ok:
            v, j = inner(L, e, d[-1][2][1], t.at(d[-1]))
            ok = is_arg(v, A(f, 1)) or L.desc(e, v, j) == AN(f, 1)
        ob("event-stored", ok, "the slot that is published does not hold the event")
        s = [z for z in wr(F["name"][1], ("s.assign", "s.clear", "s.append", "s.swap", "s.resize"))]
        ob("name-stored", bool(s) and s[-1][0] == "s.assign" and len(s[-1][2]) > 1 and textof_key(L, e, s[-1][2][1], t.at(s[-1])) == name, "the slot that is published does not hold the name of the publisher")
        direct = timed(c, t, L, e, F["time"][1], ring, fns, k)
        st = [z for z in t.ev[t.at(cl):k] if z[0] == "f.call" and len(z[2]) == 2 and equal(t, z[2][1], cl[3])]
        if direct is None:
            ob("time-set", len(st) >= 1, "the time of the publication is not stored in the slot")
            ob("prepared-first", all(t.at(z) < t.at(q) for z in st for q in d), "the preparation of the slot comes after the event: it may drop it")
        else:
            ob("time-set", direct is True, "the time stored in the slot is not the time of the publication")
        ob("one-preparation", all(equal(t, z[2][1], cl[3]) for z in t.ev if z[0] == "f.call" and len(z[2]) == 2), "another slot is prepared")
    f = only(c, p, PUB + "::EventLoopPublisher")
    L, ends, _ = ways(c, f)
    inst = "construction"
    bodies = {}
    for e in ends:
        if e.kind != "ret" or not feasible(L, e):
            continue
        t, w = L.of(e), where(f, e)
        b = calls(t, r"ObjectPoolPublisher::ObjectPoolPublisher$")
        ok = len(b) == 1 and len(b[0][2]) == 8
        if ok:
            z, k = b[0], t.at(b[0])
            c.ob("pool-arguments", inst, is_arg(z[2][1], A(f, 1)) and equal(t, z[2][4], A(f, 5)) and fn_at(L, e, z[2][5], k) == ("arg", A(f, 6)[1]) and fn_at(L, e, z[2][6], k) == ("arg", A(f, 7)[1]), w, "container, pool size, initializer and cloner do not all come to the publisher")
            tx = L.text(e, z[2][2], k)
            parts = [q[1] for q in tx if q[0] == "ld"]
            c.ob("pool-arguments", inst, parts == [AN(f, 3), AN(f, 4)] or name_is(L, e, z[2][2], k, AN(f, 4)), w, "the name of the statistics does not tell loop and event")
        c.ob("pool-arguments", inst, ok, w, "the publisher is not set up with its arguments")
        c.ob("own-name", inst, text_kept(L, e, name, AN(f, 4)), w, "the publisher keeps another name than the one subscribers use")
        rg = [z for z in t.ev if z[0] == "STORE" and z[1] == ring]
        c.ob("own-ring", inst, bool(rg) and is_arg(rg[-1][2][1], A(f, 2)), w, "the publisher keeps another ring")
        cn = [z for z in t.ev if z[0] == "STORE" and str(z[1]).startswith(count)]
        c.ob("counter-starts", inst, bool(cn) and strip(cn[-1][2][1]) == ("c", 0), w, "the number of dropped events does not start at zero")
        for n in fns:
            a = assigned(p, f, L, e, "this." + n)
            c.ob("step-set", inst, a is not None and a[0] != "null" or n not in called and not any(n in str(q) for q in called), w, "%s is never set" % n)
            if a is not None and a[0] == "lambda" and len(a[1].args) > 1:
                bodies[a[1].name] = a[1]
            elif n not in [g for g in called if g]:
                time_source(c, p, f, L, e, "this." + n, inst, w)
    for q in bodies.values():
        step_body(c, q, "preparation", ring, F, fns)


# ------------------------------------------------------------------ H02: handler, subscribers, executor of the event loop
def emits(t, name="emitEvent"):
    return [z for z in t.ev if z[0] == "CALL" and re.search(r"(Interface|Emitter)(<.*>)?::%s(\(|$)" % name, z[1])]


def suffix(tx, name):
    """what is put behind a name: parts of a text that starts with it"""
    return tx[1:] if tx and tx[0] == ("ld", name) else None


def function_of(p, f, L, e, v, k):
    """(body, closure) of the lambda a function object was made from"""
    t = L.of(e)
    for _ in range(6):
        v, k = t.origin(v, k)
        y = next((y for y in reversed(t.ev[:k]) if y[0] in ("f.ctor", "f.assign") and len(y[2]) > 1 and ptr(simp(y[2][0])) == ptr(simp(v))), None)
        if y is None:
            y = next((y for y in reversed(t.ev) if y[0] in ("f.ctor", "f.assign") and len(y[2]) > 1 and ptr(simp(y[2][1])) == ptr(simp(v)) and lambda_of(p, f, t, y)), None)
            return (lambda_of(p, f, t, y), ptr(simp(v))[0]) if y else None
        q = lambda_of(p, f, t, y)
        if q is not None:
            return q, ptr(simp(y[2][1]))[0]
        v, k = y[2][1], t.at(y)
    return None


def released(L, e, off, a, lo):
    """is the shared pointer at that offset of the argument empty after that event?"""
    t = L.of(e)
    last = [z for z in t.ev[lo:] if z[2] and z[0] in ("p.reset", "p.assign", "p.swap") and ptr(simp(z[2][0])) == ptr(simp(("p", a, off, ())) if off else a)]
    if not last:
        return False
    z = last[-1]
    return z[0] == "p.reset" and len(z[2]) == 1 or z[0] == "p.assign" and len(z[2]) > 1 and nothing(t, z[2][1], t.at(z))


def nothing(t, v, k):
    v, k = t.origin(v, k)
    if isnull(t, v) is True:
        return True
    y = next((y for y in reversed(t.ev[:k]) if y[0].startswith("p.") and y[2] and ptr(simp(y[2][0])) == ptr(simp(v)) and not y[0].endswith("dtor")), None)
    return y is not None and y[0] == "p.ctor" and (len(y[2]) == 1 or isnull(t, y[2][1]) is True)


def handler(c, p, cls, off, inst):
    f = only(c, p, cls + "::on_event")
    L, ends, _ = ways(c, f)
    ev = A(f, 1)
    em = mems(c, p, cls, {"emitter": r"shared_ptr<"})["emitter"][0]
    suf = set()
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        ems = emits(t)
        if e.kind == "iter":
            ob("emitted-once", not ems, "an event is emitted in a loop")
            continue
        if e.kind not in ("ret", "throw", "exc"):
            continue
        if ems:
            k = t.at(ems[0])
            early = [z for z in t.ev[:k] if z[2] and base(z[2][0]) == ev and (z[0] in ("STORE", "p.reset", "p.assign", "p.swap") or z[0].startswith("s.") and z[0] not in ("s.ctor", "s.plus", "s.eq", "s.c_str", "s.empty", "s.size"))]
            ob("event-intact", not early, "the event is changed before it is emitted")
            ob("released", released(L, e, off["data"], ev, k), "the slot keeps the event alive after it was handled")
        if e.kind != "ret":
            continue
        ob("emitted-once", len(ems) == 1, "an event is not emitted exactly once")
        for z in ems[:1]:
            k = t.at(z)
            ok = len(z[2]) == 4
            ob("own-emitter", ok and L.desc(e, z[2][0], k).startswith("this." + em), "the event goes to another emitter")
            ob("own-event", ok and is_arg(z[2][3], ev), "another event is emitted")
            ob("own-time", ok and any(y[0] == "LD" and strip(y[3]) == strip(z[2][2]) and ptr(simp(y[2][0]))[:2] == (ev, off["time"]) for y in t.ev), "the event is emitted with another enqueuing time than the one in its slot")
            s = suffix(L.text(e, z[2][1], k), AN(f, 1) + "." + off["key"]) if ok else None
            ob("own-name", s is not None and all(q[0] == "lit" for q in s), "the event is emitted under another name than its publisher's")
            suf.add(s)
    return suf


def registered(c, p, f, cls, inst, em, name, suf):
    """the constructor registers exactly one listener for the events of the name; -> bodies of the listener"""
    L, ends, _ = ways(c, f)
    bodies = {}
    idm = None
    for e in ends:
        if e.kind == "iter":
            c.ob("registered-once", inst, not emits(L.of(e), "on"), where(f, e), "a listener is registered in a loop")
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        on = emits(t, "on")
        ob("registered-once", len(on) == 1 and len(on[0][2]) == 5, "not exactly one listener is registered")
        if len(on) != 1 or len(on[0][2]) != 5:
            continue
        z = on[0]
        k = t.at(z)
        ob("own-emitter", L.desc(e, z[2][0], k).startswith(("this." + em[0], em[1])) and kept(L, e, "this." + em[0], em[1]), "the listener is registered with another emitter")
        tx = L.text(e, z[2][2], k)
        s = suffix(tx, name)
        if s is None and tx and tx[0][0] == "ld" and name_is(L, e, z[2][2], k, name):
            s = ()
        if s is None and tx and tx[0][0] == "ld" and text_kept(L, e, tx[0][1], name):
            s = tx[1:]
        ob("own-name", s is not None and {s} == suf, "the listener waits for another name than the handler emits")
        q = function_of(p, f, L, e, z[2][4], k)
        ob("listener-known", q is not None, "what is registered is not a function of the class")
        if q is not None:
            bodies[q[0].name] = q[0]
        st = [y for y in t.ev if y[0] == "STORE" and str(y[1]).startswith("this.") and z[3] is not None and strip(y[2][1]) == strip(z[3])]
        ob("id-kept", len(st) == 1, "the id of the listener is forgotten: it can never be removed")
        if st:
            idm = st[0][1]
    for d in [d for d in p.fns.values() if d.sq == cls + "::~" + cls.rsplit("::", 1)[1]]:
        L, ends, _ = ways(c, d)
        for e in ends:
            if e.kind != "ret":
                continue
            t, w = L.of(e), where(d, e)
            rm = emits(t, "removeListener")
            ok = len(rm) == 1 and len(rm[0][2]) == 3 and L.desc(e, rm[0][2][0], t.at(rm[0])).startswith("this." + em[0]) and idm is not None and (valdesc(L, e, rm[0][2][2], t.at(rm[0])) or "").startswith(idm)
            c.ob("removed-at-end", inst, ok, w, "the listener outlives what it calls")
    return list(bodies.values())


@prop("H02", "path-sensitive analysis of the way of an event from its slot to the listeners, texts of the names compared",
      "All paths of the handler, of the subscriber and of the function executor of the event loop, exceptions of listeners included; any event, name and time.")
def h02(c):
    p = prog(c, ["EventLoop(E|S|F)"], [r"^kpsr::EventEmitterSubscriber<.*>::.*"])
    D = mems(c, p, HP + "EventloopDataWrapper", {"name": STRING, "data": r"shared_ptr<", "time": COUNT})
    off = {"key": D["name"][0], "data": D["data"][1], "time": D["time"][1]}
    suf = handler(c, p, HP + "EventLoopEventHandler", off, "handler")
    c.ob("own-name", "handler", len(suf) == 1, "", "events are emitted under different names")
    f = only(c, p, HP + "EventLoopEventHandler::EventLoopEventHandler")
    L, ends, _ = ways(c, f)
    em = mems(c, p, HP + "EventLoopEventHandler", {"emitter": r"shared_ptr<"})["emitter"][0]
    for e in ends:
        if e.kind == "ret":
            c.ob("own-emitter", "handler", kept(L, e, "this." + em, AN(f, 1)), where(f, e), "the handler keeps another emitter")
    # subscriber
    S = HP + "EventLoopSubscriber"
    M = mems(c, p, S, {"emitter": r"shared_ptr<", "name": STRING})
    f = only(c, p, S + "::EventLoopSubscriber")
    inst = "subscriber"
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind == "ret":
            t, w = L.of(e), where(f, e)
            b = calls(t, r"EventEmitterSubscriber::EventEmitterSubscriber$")
            c.ob("base-arguments", inst, len(b) == 1 and len(b[0][2]) == 4 and is_arg(b[0][2][1], A(f, 1)) and equal(t, b[0][2][2], A(f, 4)) and textof_key(L, e, b[0][2][3], t.at(b[0])) == AN(f, 3), w, "container, type of the emitter and name do not all come to the subscriber")
            c.ob("own-name", inst, text_kept(L, e, "this." + M["name"][0], AN(f, 3)), w, "the subscriber keeps another name than its listeners wait for")
    for q in registered(c, p, f, S, inst, (M["emitter"][0], AN(f, 2)), AN(f, 3), suf):
        L, ends, _ = ways(c, q)
        for e in ends:
            t, w = L.of(e), where(q, e)
            ems = emits(t)
            if e.kind == "iter":
                c.ob("emitted-once", inst, not ems, w, "an event is emitted in a loop")
            c.ob("failures-reported", inst, not [z for z in t.ev if z[0] == "CATCH"], w, "an exception of a listener is swallowed")
            if e.kind != "ret":
                continue
            c.ob("emitted-once", inst, len(ems) == 1 and len(ems[0][2]) == 4, w, "an event that comes through the loop is not given on exactly once")
            for z in ems[:1]:
                if len(z[2]) != 4:
                    continue
                k = t.at(z)
                c.ob("own-emitter", inst, member_of(L, e, z[2][0], k) not in (None, M["emitter"][0]), w, "the event is given back to the loop instead of the subscriber's listeners")
                c.ob("own-name", inst, re.sub(r"^this\.(this->)?", "", textof_key(L, e, z[2][1], k) or "") == M["name"][0], w, "the event is given on under another name")
                c.ob("own-time", inst, any(y[0] == "LD" and strip(y[3]) == strip(z[2][2]) and ptr(simp(y[2][0]))[:2] == (A(q, 1), off["time"]) for y in t.ev), w, "the event is given on with another enqueuing time")
                v, j = inner(L, e, z[2][3], k)
                c.ob("own-event", inst, ptr(simp(v))[:2] == (A(q, 1), off["data"]), w, "another event is given on")
    # executor
    X = HP + "EventLoopFunctionExecutorListener"
    M = mems(c, p, X, {"emitter": r"shared_ptr<", "container": r"\*.*Container$"})
    f = only(c, p, X + "::EventLoopFunctionExecutorListener")
    inst = "function executor"
    for q in registered(c, p, f, X, inst, (M["emitter"][0], AN(f, 2)), AN(f, 3), suf):
        L, ends, _ = ways(c, q)
        for e in ends:
            t, w = L.of(e), where(q, e)
            fc = [z for z in t.ev if z[0] == "f.call"]
            if e.kind == "iter":
                c.ob("run-once", inst, not fc, w, "a function is run in a loop")
            c.ob("failures-reported", inst, not [z for z in t.ev if z[0] == "CATCH"], w, "an exception of a function is swallowed")
            if e.kind != "ret":
                continue
            ok = len(fc) == 1
            if ok:
                v = strip(fc[0][2][0])
                b = base(v)
                src = None
                for y in t.ev[:t.at(fc[0])]:
                    if y[3] is not None and strip(y[3]) == v and y[0] in ("LD", "p.get", "p.operator*", "p.operator->"):
                        src = inner(L, e, y[2][0], t.at(y))[0]
                if src is None and b[0] == "ld":
                    src = inner(L, e, ("p", b[1], b[2], b[3]), t.at(fc[0]))[0]
                ok = src is not None and ptr(simp(src))[:2] == (A(q, 1), off["data"])
            c.ob("run-once", inst, ok, w, "the function that comes through the loop is not run exactly once")
    f = only(c, p, X + "::setContainer")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        st = [z for z in t.ev if z[0] == "STORE" and z[1] == "this." + M["container"][0]]
        c.ob("container-kept", inst, bool(st) and is_arg(st[-1][2][1], A(f, 1)), w, "another container is kept")
        at = [z for z in t.ev if z[0] == "CALL" and re.search(r"Container(<.*>)?::attach", z[1])]
        if isnull(t, A(f, 1)) is True:
            c.ob("statistics-attached", inst, not at, w, "a container that is not there gets the statistics")
        else:
            c.ob("statistics-attached", inst, len(at) == 1 and is_arg(at[0][2][0], A(f, 1)), w, "the statistics of the listener do not come to the new container")


# ------------------------------------------------------------------ H03: life of the consumer threads
class Consumer:
    """names of what runs a consumer thread"""

    def __init__(self, c, p, cls):
        M = mems(c, p, cls, {"proc": r"unique_ptr<.*batch_event_processor<", "ring": RING, "thread": r"thread$", "task": r"packaged_task<", "future": r"future<", "flag": r"atomic<bool>|atomic_bool|bool$", "timeout": r"long$|int$|std::chrono|(__int)?\d+_t$"})
        for k, v in M.items():
            setattr(self, k, "this." + v[0])
        self.offs = {k: v[1] for k, v in M.items()}

    def own(self, L, e, z, n=0):
        """is that argument of the event the processor of the object?"""
        t = L.of(e)
        b = base(z[2][n])
        for y in t.ev[:t.at(z)]:
            if y[0] == "CALL" and y[3] is not None and simp(y[3]) == b and re.search(r"unique_ptr::(operator->|operator\*|get)$", y[1]):
                return self.proc in ("this." + (member_of(L, e, y[2][0], t.at(y)) or ""), t.name(y[2][0]).lstrip("&"))
        return "this." + (member_of(L, e, z[2][n], t.at(z)) or "").split("->")[0] == self.proc


def procs(t, name):
    return calls(t, r"batch_event_processor::%s$" % name)


def threads(t):
    """threads that get something to run"""
    return [z for z in t.ev if z[0] == "CALL" and re.search(r"^std::(thread::thread|async|jthread::jthread)$", z[1]) and len(z[2]) > 1]


def known(t, v, want, eq=None):
    v = simp(v)
    return t.m.decide(t.st, cmpv("eq", v, ("c", eq))) is want if eq is not None else truthy(t.m, t.st, v) is want


def started(t, C):
    """what the flag says at the beginning of this path"""
    for z in t.ev:
        if z[0] in ("LD", "RMW") and str(z[1]).startswith(C.flag):
            return truthy(t.m, t.st, z[3])
    return None


def starting(c, p, f, C, inst):
    """a method that starts the thread and comes back when the processor runs"""
    L, ends, _ = ways(c, f)
    n, ctor = 0, len(set(f.sq.split("<")[0].split("::")[-2:])) == 1
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        th = threads(t)
        if e.kind == "iter":
            ob("one-thread", not [z for z in t.mine if z in th], "threads are started in a loop")
            ob("wait-ends", bool([z for z in t.mine if z[0] == "CALL" and z in procs(t, "is_running") and C.own(L, e, z)]) or not [z for z in t.mine if z[0] == "CALL" and re.search("sleep|yield|wait", z[1])], "a wait asks for something else than the running processor")
            continue
        run = procs(t, "is_running")
        if e.kind == "ret":
            if not th:
                ob("one-thread", started(t, C) is True, "nothing is started although the loop is stopped")
                ob("left-alone", not [z for z in t.ev if z[0] == "STORE" and str(z[1]).startswith("this.") and not str(z[1]).startswith(C.flag)], "starting a loop that runs changes it")
                continue
            n += 1
            z = th[0]
            ob("one-thread", len(th) == 1, "more than one thread is started")
            ob("idle-before", ctor or started(t, C) is False, "a second thread is started for a loop that runs")
            ob("own-task", "this." + (member_of(L, e, z[2][1], t.at(z)) or "") == C.task, "the thread runs something else than the task of the loop")
            kept_ = "this." + (member_of(L, e, z[2][0], t.at(z)) or "") == C.thread or any(y[0] == "CALL" and y[1].endswith("thread::operator=") and t.name(y[2][0]).lstrip("&") == C.thread and same(L, e, y[2][1], t.at(y), z[2][0]) for y in t.ev[t.at(z):])
            ob("thread-kept", kept_, "the thread is not kept: it cannot be joined")
            fl = [y for y in t.ev if y[0] == "STORE" and str(y[1]).startswith(C.flag) or y[0] == "RMW" and str(y[1]).startswith(C.flag)]
            ob("flag-set", bool(fl) and (fl[-1][0] == "RMW" or strip(fl[-1][2][1]) == ("c", 1)), "a started loop does not count as started: it would never be stopped")
            ob("running-on-return", bool(run) and C.own(L, e, run[-1]) and known(t, run[-1][3], True) and t.at(run[-1]) > t.at(z), "the method comes back before the processor runs")
        elif [z for z in t.ev if z[0] == "THROW"] and th:
            lim = [y for y in t.ev if y[0] == "LD" and str(y[1]).startswith(C.timeout)]
            up = lambda y: [z for z in run if t.at(z) < t.at(y)][-1:]
            ob("patience", any(late(t, y[3]) and up(y) and known(t, up(y)[0][3], False) for y in lim), "the start is given up although the time is not over or the processor runs")
    c.ob("starts", inst, n > 0, f.here(), "no thread is ever started")


def late(t, lim):
    """is something known to be greater than the limit?"""
    lim = strip(lim)
    return any(isinstance(v, tuple) and v and v[0] not in ("p", "al") and strip(v) != lim and strip(v)[0] != "c" and t.m.decide(t.st, cmpv("slt", lim, strip(v))) is True for v in list(t.st.env.values())) or any(t.m.decide(t.st, cmpv("slt", lim, ("c", k))) is True for k in range(1))


def stopping(c, p, f, C, inst, rearm, leave, flagged=True):
    """a method after which the thread has ended"""
    L, ends, _ = ways(c, f)
    n = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        halt, join = procs(t, "halt"), calls(t, r"^std::thread::join$")
        if e.kind == "iter":
            ob("halted-once", not [z for z in t.mine if z in halt or z in join], "the processor is halted in a loop")
            continue
        if e.kind != "ret":
            continue
        gone = calls(t, r"_sequencer::remove_gating_sequence$")
        if leave:
            ob("leaves-ring", len(gone) == 1 and on_ring(L, e, gone[0], C.ring) and any(strip(y[3]) == strip(gone[0][2][1]) and C.own(L, e, y) for y in procs(t, "get_sequence") if y[3] is not None) or started(t, C) is False, "publishers go on waiting for a consumer that is gone")
            ob("leaves-ring", all(t.at(z) > t.at(y) for z in gone for y in join), "the consumer leaves the ring while it still reads from it")
        if not halt:
            ob("stopped", started(t, C) is False, "a loop that runs is not stopped")
            ob("idle-untouched", not join and not [z for z in t.ev if z[0] == "CALL" and re.search(r"packaged_task|get_future|detach", z[1]) and "::~" not in z[1]], "stopping a loop that does not run changes it")
            continue
        n += 1
        ob("halted-once", len(halt) == 1 and C.own(L, e, halt[0]), "not exactly the own processor is halted")
        ob("idle-untouched", started(t, C) is not False, "a loop that was never started is stopped: it would wait for ever")
        k = t.at(halt[0])
        up = [z for z in t.ev[:k] if z in procs(t, "is_running") and C.own(L, e, z) and known(t, z[3], True)]
        done = [z for z in t.ev[:k] if z[0] == "CALL" and re.search(r"future::wait(_for|_until)$", z[1]) and member_of(L, e, z[2][0], t.at(z)) == C.future[5:] and z[3] is not None and known(t, z[3], True, 0)]
        ob("halt-not-lost", bool(up or done), "the processor is halted before its thread has reached it: the halt is lost and the join waits for ever")
        if flagged:
            fl = [y for y in t.ev if y[0] in ("STORE", "RMW") and str(y[1]).startswith(C.flag)]
            ob("flag-cleared", bool(fl) and (fl[-1][0] == "RMW" or strip(fl[-1][2][1]) == ("c", 0)), "a stopped loop still counts as started: it can never be started again")
        ja = [z for z in calls(t, r"^std::thread::joinable$") if t.at(z) > k]
        never = bool(ja) and known(t, ja[-1][3], False)
        ob("joined", never and not join or len(join) == 1 and t.at(join[0]) > k and "this." + (member_of(L, e, join[0][2][0], t.at(join[0])) or "") == C.thread, "the thread is not joined after it was halted")
        ob("joined", not calls(t, r"^std::thread::detach$"), "the thread is left to itself")
        j = t.at(join[0]) if join else k
        re_ = [z for z in t.ev if z[0] == "CALL" and re.search(r"^std::packaged_task::(packaged_task|operator=|swap|reset)$", z[1])]
        ob("joined-first", all(t.at(z) > j for z in re_), "the task is replaced while its thread runs")
        if rearm:
            ob("restartable", rearmed(L, e, C, re_), "a stopped loop has no task for the next start, or the future of an old one")
    c.ob("stops", inst, n > 0, f.here(), "the processor is never halted")


def rearmed(L, e, C, re_):
    t = L.of(e)
    if not re_:
        return False
    own = lambda z: "this." + (member_of(L, e, z[2][0], t.at(z)) or "") == C.task
    fresh = False
    for z in re_:
        if z[1].endswith("::reset") and own(z):
            fresh = True
        if z[1].endswith("::operator=") and own(z) or z[1].endswith("::packaged_task") and own(z):
            src = z
            if z[1].endswith("::operator="):
                src = next((y for y in re_ if y[1].endswith("::packaged_task") and ptr(simp(y[2][0])) == ptr(simp(z[2][1]))), None)
            fresh = src is not None and len(src[2]) > 1 and member_of(L, e, src[2][1], t.at(src)) not in (None, C.task[5:])
    last = min([t.at(z) for z in re_ if not own(z)] or [t.at(z) for z in re_])
    gf = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("packaged_task::get_future") and t.at(z) > last]
    ok = False
    for z in gf:
        v, k = t.origin(z[2][1], t.at(z))
        mine = "this." + (member_of(L, e, z[2][1], t.at(z)) or "") == C.task or any(y[1].endswith("::operator=") and own(y) and ptr(simp(y[2][1])) == ptr(simp(v)) for y in re_)
        put = "this." + (member_of(L, e, z[2][0], t.at(z)) or "") == C.future or any(y[0] == "CALL" and y[1].endswith("future::operator=") and "this." + (member_of(L, e, y[2][0], t.at(y)) or "") == C.future and ptr(simp(y[2][1])) == ptr(simp(z[2][0])) for y in t.ev[t.at(z):])
        ok = ok or mine and put
    return fresh and ok


def task_body(c, p, q, C, inst):
    """what the thread runs: the consumer joins the ring, then the processor runs"""
    L, ends, _ = ways(c, q)
    for e in ends:
        t, w = L.of(e), where(q, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        run, add = procs(t, "run"), calls(t, r"_sequencer::add_gating_sequences$")
        if e.kind == "iter":
            ob("runs-once", not run and not add, "the processor runs in a loop of its own")
        for z in run:
            ob("in-ring-first", any(t.at(y) < t.at(z) for y in add), "the processor runs before publishers wait for it: events that it has not read yet are overwritten")
        if e.kind != "ret":
            continue
        ob("runs-once", len(run) == 1 and C.own(L, e, run[0]), "the thread does not run the own processor once")
        ok = len(add) == 1 and "this." + (member_of(L, e, add[0][2][0], t.at(add[0])) or "").split("->")[0] == C.ring
        if ok:
            v = L.cname(e, (None, None, (add[0][2][1],), None, add[0][4], None)) if False else t.name(add[0][2][1]).lstrip("&")
            seqs = [strip(y[3]) for y in procs(t, "get_sequence") if y[3] is not None and C.own(L, e, y)]
            put = [y for y in t.ev[:t.at(add[0])] if (y[0] == "STORE" and L.desc(e, y[2][0], t.at(y)).startswith(v + "[") or y[0] == "push" and L.cname(e, y) == v)]
            vals = [strip(y[2][1]) if y[0] == "STORE" else strip(held(L, e, y[2][1], t.at(y)) or y[2][1]) for y in put]
            size = [y for y in t.ev[:t.at(add[0])] if (y[0] == "resize" or y[0] == "ctor" and len(y[2]) > 1) and L.cname(e, y) == v]
            n = sum(1 for y in put if y[0] == "push")
            lst = [y for y in t.ev[:t.at(add[0])] if y[0] == "ctor" and len(y[2]) > 2 and L.cname(e, y) == v and strip(y[2][2]) == ("c", 1)]
            if lst:
                src = [y for y in t.ev[:t.at(lst[0])] if y[0] == "STORE" and ptr(simp(y[2][0])) == ptr(simp(lst[0][2][1]))]
                vals, n, size = vals + [strip(y[2][1]) for y in src[-1:]], n + 1, [y for y in size if y is not lst[0]]
            ok = len(vals) == 1 and vals[0] in seqs and (n == 1 and not size or n == 0 and len(size) == 1 and (strip(size[0][2][1]) == ("c", 1) or size[0][0] == "ctor"))
        ob("own-sequence", ok, "publishers do not wait for exactly this consumer")


def wiring(c, p, f, C, inst, ringarg, handler_off):
    """the constructor puts ring, barrier, handler, task and future together; -> bodies of the task"""
    L, ends, _ = ways(c, f)
    bodies = {}
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        rg = [z for z in t.ev if z[0] == "STORE" and z[1] == C.ring]
        ob("own-ring", bool(rg) and is_arg(rg[-1][2][1], ringarg), "another ring is kept")
        isring = lambda v, k: is_arg(v, ringarg) or L.desc(e, v, k).startswith(C.ring)
        mk = procs(t, "batch_event_processor")
        ok = len(mk) == 1 and len(mk[0][2]) >= 4
        ob("one-processor", ok, "not exactly one processor is made")
        if ok:
            z, k = mk[0], t.at(mk[0])
            nb = [y for y in t.ev[:k] if y[0] == "CALL" and y[1].endswith("_sequencer::new_barrier") and isring(y[2][1], t.at(y))]
            bar = t.origin(z[2][2], k)[0]
            ob("own-ring", isring(z[2][1], k) and any(len(y[2]) == 2 and (same(L, e, z[2][2], k, y[2][0]) or ptr(simp(bar)) == ptr(simp(y[2][0])) or moved(t, z[2][2], k, y[2][0])) for y in nb), "the processor reads another ring or waits at another barrier")
            ob("own-handler", ptr(simp(z[2][3]))[:2] == (THIS, handler_off), "the processor gives its events to another handler")
            ob("processor-kept", any(y[0] == "CALL" and re.search(r"unique_ptr::(operator=|reset|unique_ptr)$", y[1]) and t.name(y[2][0]).lstrip("&") == C.proc and (base(y[2][1]) == base(z[2][0]) or moved(t, y[2][1], t.at(y), z[2][0])) for y in t.ev[k:] if len(y[2]) > 1), "the processor is not kept")
        pt = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("packaged_task::packaged_task") and t.name(z[2][0]).lstrip("&") == C.task and len(z[2]) > 1]
        ob("task-made", len(pt) == 1, "there is no task for the thread")
        for z in pt:
            q = lambda_of(p, f, t, z) or (function_of(p, f, L, e, z[2][1], t.at(z)) or (None,))[0]
            ob("task-made", q is not None, "the task is not a function of the class")
            if q is not None:
                bodies[q.name] = q
        gf = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("packaged_task::get_future") and t.name(z[2][1]).lstrip("&") == C.task and t.name(z[2][0]).lstrip("&") == C.future]
        ob("future-kept", len(gf) == 1 and all(t.at(z) > t.at(y) for z in gf for y in pt), "the end of the thread cannot be seen")
    return list(bodies.values())


def moved(t, v, k, src):
    """does v hold what was put into src, by way of moves of owning pointers?"""
    for _ in range(5):
        if base(v) == base(src):
            return True
        y = next((y for y in reversed(t.ev[:k]) if y[0] == "CALL" and re.search(r"unique_ptr::(unique_ptr|operator=|operator\*|get|operator->)$", y[1]) and (len(y[2]) > 1 and ptr(simp(y[2][0])) == ptr(simp(v)) or y[3] is not None and simp(y[3]) == base(v))), None)
        if y is None:
            return False
        v, k = (y[2][0] if y[3] is not None and simp(y[3]) == base(v) else y[2][1]), t.at(y)
    return False


@prop("H03", "path-sensitive typestate of the consumer threads: start, wait, halt, join, re-arm; member orders",
      "All paths of start, stop, construction and destruction of the event loop and of the data multiplexer's subscribers; calls of start and stop of one object from several threads at once are left out.")
def h03(c):
    p = prog(c, ["(EventLoop<|DataMultiplexerSubscriber<)"], [r"^kpsr::high_performance::EventLoopEventHandler::EventLoopEventHandler.*", r"^kpsr::high_performance::DataMultiplexerEventHandler<.*>::.*", r"^kpsr::EventEmitterSubscriber<.*>::.*"])
    cls = HP + "EventLoop"
    C = Consumer(c, p, cls)
    h = mems(c, p, cls, {"handler": r"EventLoopEventHandler$"})["handler"]
    starting(c, p, only(c, p, cls + "::start"), C, "EventLoop::start")
    stopping(c, p, only(c, p, cls + "::stop"), C, "EventLoop::stop", True, False)
    d = [f for f in p.fns.values() if f.sq == cls + "::~EventLoop"]
    c.ob("stopped", "EventLoop::~EventLoop", bool(d), "", "an event loop that runs is destroyed without being stopped")
    for f in d:
        stopping(c, p, f, C, "EventLoop::~EventLoop", False, True)
    f = only(c, p, cls + "::EventLoop")
    for q in wiring(c, p, f, C, "EventLoop::EventLoop", A(f, 2), h[1]):
        task_body(c, p, q, C, "EventLoop thread")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind == "ret":
            t, w = L.of(e), where(f, e)
            hc = calls(t, r"EventLoopEventHandler::EventLoopEventHandler$")
            c.ob("own-emitter", "EventLoop::EventLoop", len(hc) == 1 and L.desc(e, hc[0][2][1], t.at(hc[0])) == AN(f, 1), w, "the handler gets another emitter")
            to = [z for z in t.ev if z[0] == "STORE" and z[1] == C.timeout]
            c.ob("own-timeout", "EventLoop::EventLoop", bool(to) and equal(t, to[-1][2][1], A(f, 4)), w, "another timeout is kept")
            fl = [z for z in t.ev if z[0] == "STORE" and str(z[1]).startswith(C.flag)]
            c.ob("starts-stopped", "EventLoop::EventLoop", bool(fl) and strip(fl[-1][2][1]) == ("c", 0), w, "a new loop counts as started")
    for name, what in (("isStarted", "flag"), ("isRunning", "processor")):
        f = only(c, p, cls + "::" + name)
        L, ends, _ = ways(c, f)
        for e in ends:
            if e.kind == "ret":
                t = L.of(e)
                if what == "flag":
                    ok = any(z[0] == "LD" and str(z[1]).startswith(C.flag) and base_value(z[3]) == base_value(e.val) for z in t.ev)
                else:
                    ok = any(C.own(L, e, z) and base_value(z[3]) == base_value(e.val) for z in procs(t, "is_running"))
                c.ob("state-told", "EventLoop::" + name, ok, where(f, e), "something else than the state is told")
    subscriber_life(c, p)


def base_value(v):
    return strip(v)


def subscriber_life(c, p):
    cls = HP + "DataMultiplexerSubscriber"
    C = Consumer(c, p, cls)
    h = mems(c, p, cls, {"handler": r"DataMultiplexerEventHandler<"})["handler"]
    f = only(c, p, cls + "::DataMultiplexerSubscriber")
    for q in wiring(c, p, f, C, "DataMultiplexerSubscriber", A(f, 4), h[1]):
        task_body(c, p, q, C, "DataMultiplexerSubscriber thread")
    starting(c, p, f, C, "DataMultiplexerSubscriber")
    L, ends, _ = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind == "ret":
            pm = procs(t, "batch_event_processor")
            th = threads(t)
            c.ob("complete-before-start", "DataMultiplexerSubscriber", all(t.at(y) < t.at(z) for y in pm for z in th), w, "the thread starts before its processor is there")
            to = [z for z in t.ev if z[0] == "STORE" and z[1] == C.timeout]
            c.ob("own-timeout", "DataMultiplexerSubscriber", bool(to) and equal(t, to[-1][2][1], A(f, 5)), w, "another timeout is kept")
        elif threads(t) and [z for z in t.ev if z[0] == "THROW"]:
            j = calls(t, r"^std::thread::join$")
            ja = calls(t, r"^std::thread::joinable$")
            c.ob("joined", "DataMultiplexerSubscriber", len(j) == 1 or bool(ja) and known(t, ja[-1][3], False), w, "a subscriber that gives up starting leaves its thread behind: the program ends")
    for f in [f for f in p.fns.values() if f.sq == cls + "::~DataMultiplexerSubscriber"]:
        stopping(c, p, f, C, "~DataMultiplexerSubscriber", False, True, flagged=False)


# ------------------------------------------------------------------ H04: provider of the event loop
def pointed(L, e, v, k=None):
    """the shared pointer (operand, index) that a plain pointer came out of"""
    t = L.of(e)
    v = simp(v)
    for y in reversed(t.ev[:k]):
        if y[3] is not None and y[0] in ("LD", "p.get", "p.operator->", "p.operator*") and simp(y[3]) == v:
            return inner(L, e, y[2][0], t.at(y))
    return None


def entry_of(L, e, v, k, cont, key):
    """is that shared pointer the one the map has under the key?"""
    return L.desc(e, v, k) == "%s{%s}" % (cont, show(key))


def in_map(L, e, cont, key):
    """is the key known to be in the map at the beginning of this path?"""
    t, r = L.of(e), None
    for y in t.ev:
        if y[0] in ("find", "count") and L.cname(e, y) == cont and L.text(e, y[2][1], t.at(y)) == key:
            if y[0] == "count":
                d = truthy(t.m, t.st, y[3])
                r = d if d is not None and r is None else r
            for z in t.ev:
                if y[0] == "find" and z[0] == "end" and L.cname(e, z) == cont:
                    d = t.m.decide(t.st, cmpv("eq", simp(y[3]), simp(z[3])))
                    if d is not None and r is None:
                        r = not d
    return r


def made_shared(t, rx):
    """objects made as shared ones: make_shared of a class, or new of it given to a shared pointer"""
    return [z for z in t.ev if z[0] == "CALL" and z[1] in ("std::make_shared", "std::allocate_shared") and re.search(rx, (t.fn.insts[z[4]].get("dem") or "").split("make_shared", 1)[-1])]


def cached(c, p, f, cont, name, inst, rx, args):
    """a method that makes an object for a name once and gives it out from then on"""
    L, ends, _ = ways(c, f)
    key = (("ld", name),)
    n = [0, 0]
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        mk = made_shared(t, rx)
        if e.kind == "iter":
            ob("made-once", not [z for z in t.mine if z in mk], "objects are made in a loop")
            continue
        if e.kind != "ret":
            continue
        ob("made-once", not [z for z in t.ev if z[0] in ("erase", "clear", "swap", "extract", "merge", "assign") and z[2] and L.cname(e, z) == cont], "objects given out earlier are dropped")
        has = in_map(L, e, cont, key)
        src = pointed(L, e, e.val)
        pt = list(puts(L, e, cont))
        if has is True:
            n[0] += 1
            ob("same-object", not mk and not pt and src is not None and entry_of(L, e, src[0], src[1], cont, key), "for a known name something else than its object is given out")
            continue
        ob("made-once", has is False, "whether there is an object for the name is not asked, or asked for another name")
        n[1] += 1
        ob("made-once", len(mk) == 1, "not exactly one object is made for a new name")
        if len(mk) != 1:
            continue
        me = lambda v, k: ptr(simp(inner(L, e, v, k)[0])) == ptr(simp(mk[0][2][0])) or ptr(simp(t.origin(v, k)[0])) == ptr(simp(mk[0][2][0]))
        ob("kept", len(pt) == 1 and pt[0][0] == show(key) and (me(pt[0][1], t.at(pt[0][2])) if pt[0][1][0] != "second" else True), "the new object is not kept under its name: it is destroyed at once, or given out for another name")
        # after a swap the entry is what the pointer was before
        away = len(pt) == 1 and pt[0][2][0] in ("swap", "p.swap") and src is not None and src[1] <= t.at(pt[0][2])
        ob("same-object", src is not None and (me(src[0], src[1]) or not away and entry_of(L, e, src[0], src[1], cont, key)), "something else than the new object is given out")
        ok, msg = args(L, e, mk[0])
        ob("own-arguments", ok, msg)
    c.ob("same-object", inst, n[0] > 0, f.here(), "a name is never found again")
    c.ob("made-once", inst, n[1] > 0, f.here(), "no object is ever made")


def member_at(L, e, z, n, name):
    """is that operand the member itself (or its address)?"""
    t = L.of(e)
    return t.name(z[2][n]).lstrip("&").split(".cursor_")[0] == name or L.desc(e, z[2][n], t.at(z)).lstrip("&").split(".cursor_")[0] == name


def const(L, e, v, k):
    """constant that an operand is, or refers to"""
    h = held(L, e, v, k)
    h = strip(h if h is not None else v)
    return h[1] if h[0] == "c" else None


def passed(L, e, z, n, a):
    """is that operand the argument, or a reference to a variable that holds it?"""
    t = L.of(e)
    h = held(L, e, z[2][n], t.at(z))
    return is_arg(strip(z[2][n]), a) or h is not None and equal(t, h, a) or L.desc(e, z[2][n], t.at(z)) == t.fn.argname(a[1])


@prop("H04", "path-sensitive analysis of the provider: caches by name, arguments passed on, life of the loop",
      "All paths of the provider's methods for any name, function, container and order of calls; the loop, publishers and subscribers themselves are H01-H03's subject.")
def h04(c):
    PRV = HP + "EventLoopMiddlewareProvider"
    p = prog(c, ["EventLoopMiddlewareProvider<"], [r"^kpsr::high_performance::EventLoop(Publisher|Subscriber|Function|Sched|<).*", r"^kpsr::EventEmitterSubscriber<.*>::.*", r".*MiddlewareProvider<.*>::(get(Publisher|Subscriber|Scheduler)|isRunning).*"])
    M = mems(c, p, PRV, {"container": r"\*.*Container$", "ring": r"(disruptor4cpp::)?ring_buffer<", "emitter": r"shared_ptr<.*EventEmitterInterface", "loop": r".*EventLoop<", "sched": r"unique_ptr<.*EventLoopScheduler", "map": r"map<"})
    N = {k: "this." + v[0] for k, v in M.items()}
    maps = ["this." + x["name"] for t in p.types if re.match(re.escape(PRV) + r"<.*>$", t.get("q") or "") and t.get("mem") for x in t["mem"] if tyname(p, x["ty"]).startswith("map<")]
    used = {}
    for f in [f for f in p.fns.values() if f.sq == PRV + "::getPublisher" and "unit::Event" in f.dem]:
        def args(L, e, z):
            t, k = L.of(e), L.of(e).at(z)
            a = z[2]
            if len(a) != 9:
                return False, "the publisher is not made with all arguments"
            nm = [y for y in t.ev[:k] if y[0] == "CALL" and re.search(r"EventLoop::getName$", re.sub(r"\[.*\]", "", y[1])) and member_at(L, e, y, 1, N["loop"] + "._name") and ptr(simp(y[2][0])) == ptr(simp(a[3]))] or t.name(a[3]).startswith(N["loop"])
            ok = member_at(L, e, z, 1, N["container"]) and member_at(L, e, z, 2, N["ring"]) and bool(nm)
            ok = ok and textof_key(L, e, a[4], k) == AN(f, 1) and passed(L, e, z, 5, A(f, 2)) and fn_at(L, e, a[6], k) == ("arg", A(f, 3)[1]) and fn_at(L, e, a[7], k) == ("arg", A(f, 4)[1]) and passed(L, e, z, 8, A(f, 5))
            return ok, "container, ring, names, pool size, functions and mode do not all come to the publisher"
        used["pub"] = cache_of(c, f, maps)
        cached(c, p, f, used["pub"], AN(f, 1), "getPublisher", r"EventLoopPublisher<", args)
    for f in [f for f in p.fns.values() if f.sq == PRV + "::getSubscriber" and "unit::Event" in f.dem]:
        def args(L, e, z):
            t, k = L.of(e), L.of(e).at(z)
            ok = len(z[2]) == 5 and member_at(L, e, z, 1, N["container"]) and member_at(L, e, z, 2, N["emitter"]) and textof_key(L, e, z[2][3], k) == AN(f, 1) and passed(L, e, z, 4, A(f, 2))
            return ok, "container, emitter, name and kind of emitter do not all come to the subscriber"
        used["sub"] = cache_of(c, f, maps)
        cached(c, p, f, used["sub"], AN(f, 1), "getSubscriber", r"EventLoopSubscriber<", args)
    c.need(set(used) == {"pub", "sub"}, "getPublisher or getSubscriber is gone")
    c.ob("own-map", "getPublisher", used["pub"] != used["sub"] and None not in used.values(), "", "publishers and subscribers are kept in one map: they are taken for each other")
    scheduler(c, p, PRV, N, used)
    lifecycle(c, p, PRV, N, M)
    set_container(c, p, PRV, N, used)


def cache_of(c, f, maps):
    """the map in which a method looks up a name"""
    L, ends, _ = ways(c, f)
    s = {L.cname(e, y) for e in ends for y in L.of(e).ev if y[0] in ("find", "count", "mapat", "mapget", "insert", "assign-key") and L.cname(e, y) in maps}
    return s.pop() if len(s) == 1 else None


def own_scheduler(L, e, v, k, sched):
    """is that pointer the scheduler the provider keeps?"""
    t = L.of(e)
    return any(y[0] == "CALL" and y[3] is not None and simp(y[3]) == simp(v) and re.search(r"unique_ptr::(get|operator->)$", y[1]) and t.name(y[2][0]).lstrip("&") == sched for y in t.ev[:k])


def scheduler(c, p, PRV, N, used):
    f = only(c, p, PRV + "::getScheduler")
    L, ends, _ = ways(c, f)
    inst, names = "getScheduler", {}
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        mk = [z for z in t.ev if z[0] == "CALL" and re.search(r"EventLoopScheduler::EventLoopScheduler$", z[1])]
        ask = [z for z in t.ev if z[0] == "CALL" and re.search(r"unique_ptr::(get|operator bool)$", z[1]) and t.name(z[2][0]).lstrip("&") == N["sched"]]
        there = None
        if ask:
            there = (not isnull(t, ask[0][3])) if isnull(t, ask[0][3]) is not None else truthy(t.m, t.st, ask[0][3])
        ob("given-out", own_scheduler(L, e, e.val, None, N["sched"]), "something else than the kept scheduler is given out")
        if not mk:
            ob("made-once", there is True and not [z for z in t.ev if z[0] in ("mapat", "insert") or z in calls(t, "unique_ptr::(operator=|reset)$")], "there may be no scheduler, or asking for it changes the provider")
            continue
        ob("made-once", len(mk) == 1 and there is False, "a scheduler is made although there is one: tasks of the old one end")
        ex = made_shared(t, "EventLoopFunctionExecutorListener")
        pb = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("::getPublisher")]
        ob("executor", len(ex) == 1 and len(pb) == 1, "not exactly one executor and one publisher are made for the scheduler")
        if len(ex) != 1 or len(pb) != 1:
            continue
        k = t.at(pb[0])
        a, b = L.text(e, ex[0][2][3], t.at(ex[0])), L.text(e, pb[0][2][1], k)
        ob("executor", a == b and member_at(L, e, ex[0], 1, N["container"]) and member_at(L, e, ex[0], 2, N["emitter"]), "the executor does not wait for what the scheduler publishes")
        em = next((truthy(t.m, t.st, y[3]) for y in t.ev if y[0] == "s.empty" and textof_key(L, e, y[2][0], t.at(y)) == AN(f, 1)), None)
        ob("own-name", em is False and a == (("ld", AN(f, 1)),) or em is True and len(a) == 1 and a[0][0] == "lit" and a[0][1] not in ("", None), "the scheduler uses another name than the one asked for")
        fs = [fn_at(L, e, pb[0][2][n], k) for n in (3, 4)]
        ob("executor", fs == [None, None] or all(x is None or x[0] == "null" for x in fs) or all(isnull(t, q) is not False for q in pb[0][2][3:5]), "functions are published through a function of someone else")
        ob("executor", simp(mk[0][2][1]) == simp(pb[0][3]), "the scheduler publishes through another publisher")
        pt = list(puts(L, e, used["sub"]))
        me = lambda v, k: ptr(simp(inner(L, e, v, k)[0])) == ptr(simp(ex[0][2][0])) or ptr(simp(t.origin(v, k)[0])) == ptr(simp(ex[0][2][0]))
        ob("executor-kept", any(x[1][0] == "second" or me(x[1], t.at(x[2])) for x in pt if x[0] == show(a)), "the executor is destroyed at once: nothing is ever run")
        ob("scheduler-kept", any(y[0] == "CALL" and re.search(r"unique_ptr::(operator=|reset)$", y[1]) and t.name(y[2][0]).lstrip("&") == N["sched"] and (base(y[2][1]) == base(mk[0][2][0]) or moved(t, y[2][1], t.at(y), mk[0][2][0])) for y in t.ev[t.at(mk[0]):] if len(y[2]) > 1), "the scheduler is not kept")


def lifecycle(c, p, PRV, N, M):
    for name, op in (("start", "start"), ("stop", "stop"), ("~EventLoopMiddlewareProvider", "stop")):
        fs = [f for f in p.fns.values() if f.sq == PRV + "::" + name]
        c.ob("loop-driven", name, bool(fs), "", "the loop is not stopped before the publishers and the ring are destroyed")
        for f in fs:
            L, ends, _ = ways(c, f)
            for e in ends:
                if e.kind == "iter":
                    c.ob("loop-driven", name, not calls(L.of(e), "EventLoop::(start|stop)$"), where(f, e), "the loop is driven in a loop")
                if e.kind != "ret":
                    continue
                t = L.of(e)
                z = calls(t, r"EventLoop::(start|stop)$")
                c.ob("loop-driven", name, len(z) == 1 and z[0][1].endswith("::" + op) and ptr(simp(z[0][2][0]))[:2] == (THIS, M["loop"][1]), where(f, e), "%s does not %s the loop" % (name, op))
                if name[0] == "~":
                    first = [y for y in t.ev if y[0].endswith("dtor") or y[0] == "CALL" and "::~" in y[1]]
                    c.ob("loop-driven", name, all(t.at(y) > t.at(z[0]) for y in first) if z else False, where(f, e), "parts of the provider are destroyed while the loop runs")
    f = only(c, p, PRV + "::isRunning")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind == "ret":
            t = L.of(e)
            c.ob("state-told", "isRunning", any(z[3] is not None and strip(z[3]) == strip(e.val) and ptr(simp(z[2][0]))[:2] == (THIS, M["loop"][1]) for z in calls(t, r"EventLoop::isStarted$|EventLoop::isRunning$")), where(f, e), "something else than the state of the loop is told")
    f = only(c, p, PRV + "::EventLoopMiddlewareProvider")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        ob = lambda ok, msg: c.ob("own-parts", "construction", ok, w, msg)
        lp = calls(t, r"EventLoop::EventLoop$")
        ok = len(lp) == 1 and len(lp[0][2]) >= 5
        ob(ok, "not exactly one loop is made")
        if ok:
            z, k = lp[0], t.at(lp[0])
            ob(t.name(z[2][1]).lstrip("&") == N["emitter"] or same(L, e, z[2][1], k, ptr(simp(z[2][1]))[0]) and L.desc(e, z[2][1], k) == L.desc(e, ("p", THIS, M["emitter"][1], ()), k), "the loop uses another emitter than the subscribers")
            ob(member_at(L, e, z, 2, N["ring"]), "the loop uses another ring than the publishers")
            ob(textof_key(L, e, z[2][3], k) == AN(f, 2) and passed(L, e, z, 4, A(f, 3)), "name or timeout do not come to the loop")
        st = [z for z in t.ev if z[0] == "STORE" and z[1] == N["container"]]
        ob(bool(st) and is_arg(st[-1][2][1], A(f, 1)), "another container is kept")


def set_container(c, p, PRV, N, used):
    f = only(c, p, PRV + "::setContainer")
    L, ends, _ = ways(c, f)
    inst = "setContainer"
    seen = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        run = [z for z in calls(t, r"EventLoop::isStarted$|EventLoop::isRunning$|MiddlewareProvider::isRunning$")] or [z for z in t.ev if z[0] == "CALL" and re.search(r"EventLoop::is|Provider::isRunning", z[1])]
        st = [z for z in t.ev if z[0] == "STORE" and z[1] == N["container"]]
        on = bool(run) and truthy(t.m, t.st, run[0][3]) is True
        off = bool(run) and truthy(t.m, t.st, run[0][3]) is False
        if e.kind == "iter":
            ex = [z for z in t.mine if z[0] == "CALL" and z[1].endswith("ExecutorListener::setContainer")]
            at = [z for z in t.mine if z[0] == "CALL" and re.search(r"Container::attach$", z[1])]
            gp = [z for z in t.mine if z[0] == "CALL" and z[1].endswith("::getPublisher")]
            if ex or at or gp:
                ob("statistics-attached", off, "statistics change hands while the loop runs")
                ob("statistics-attached", len(ex) == 1 and is_arg(strip(ex[0][2][1]), A(f, 1)), "the executor does not get the container")
                ok = len(at) == 1 and len(gp) == 1 and base(at[0][2][1]) == simp(gp[0][3])
                ob("statistics-attached", ok and (is_arg(strip(at[0][2][0]), A(f, 1)) or L.desc(e, at[0][2][0], t.at(at[0])).startswith((N["container"], AN(f, 1)))), "the statistics of the scheduler's publisher are not attached")
                ob("statistics-attached", len(gp) == 1 and L.desc(e, gp[0][2][1], t.at(gp[0])) == used["sub"] + "[*].first", "the statistics of another publisher are attached")
                seen += 1
            continue
        if e.kind != "ret":
            continue
        ob("only-when-stopped", on and not st or off and len(st) == 1 and is_arg(st[0][2][1], A(f, 1)), "the container is changed while the loop runs, or not changed while it does not")
    c.ob("statistics-attached", inst, seen > 0, f.here(), "an existing scheduler never gets the container")


# ------------------------------------------------------------------ H05: publisher of the data multiplexer
@prop("H05", "path-sensitive analysis of a publication over the ring, closures resolved to their bodies",
      "All paths of the three ways to publish and of the constructor: a full ring, functions that throw, absent functions; the ring itself is P01-P04's and N01-N04's subject.")
def h05(c):
    PUB, DATA = HP + "DataMultiplexerPublisher", HP + "DataMultiplexerDataWrapper"
    p = prog(c, ["DataMultiplexerPublisher<"], [r"^kpsr::Publisher<.*>::Publisher.*"])
    F = mems(c, p, DATA, {"data": r"shared_ptr<", "time": COUNT})
    M = mems(c, p, PUB, {"ring": RING})
    ring = "this." + M["ring"][0]
    fns = functions(p, PUB)
    stat = r"this\.publicationStats\.totalDiscardedEvents"
    use = {}
    for f in [f for f in p.fns.values() if f.sq in (PUB + "::internalPublish", PUB + "::processAndPublish")]:
        process = f.sq.endswith("processAndPublish")
        ptrarg = not process and tyname(p, f.argtype(1)).lstrip("&*").startswith("shared_ptr<")
        inst = "process" if process else "publish shared" if ptrarg else "publish"

        def user(L, e, z):
            if process:
                return ptr(simp(L.of(e).origin(z[2][0], L.of(e).at(z))[0]))[0] == A(f, 1)
            g = member_of(L, e, z[2][0], L.of(e).at(z))
            return g in fns and len(z[2]) == 3

        def steps(L, e, z):
            return len(z[2]) == 1 and member_of(L, e, z[2][0], L.of(e).at(z)) in fns
        for e, w, t, L, cl, pu, fill in plan(c, p, f, inst, ring, user, lambda n: re.match(stat, str(n)), steps, F):
            ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
            k = t.at(pu)
            ob("event-filled-once", len(fill) == 1 and t.at(fill[0]) > t.at(cl), "the event of the slot is not filled exactly once")
            if len(fill) != 1:
                continue
            z, j = fill[0], t.at(fill[0])
            if process:
                ob("own-event", in_slot(L, e, z[2][1], j, F["data"][1], True), "something else than the event of the slot is processed")
            else:
                ob("own-event", (is_arg(z[2][1], A(f, 1)) or L.desc(e, z[2][1], j) == AN(f, 1)) and in_slot(L, e, z[2][2], j, F["data"][1], False), "something else is cloned, or not into the slot")
                use.setdefault(inst, set()).add(member_of(L, e, z[2][0], j))
            ob("time-set", timed(c, t, L, e, F["time"][1], ring, fns, k) is True, "the time stored in the slot is not the time of the publication")
            ob("nothing-else", not [y for y in t.ev[:k] if y[2] and y[0] in ("p.assign", "p.reset", "p.swap") and slot(t, y[2][0])], "the slot gets another object")
    c.need("publish" in use and "publish shared" in use, "the publisher has no two ways to publish")
    c.ob("cloner-known", "publish", all(len(s) == 1 and None not in s for s in use.values()), "", "it depends on something else how an event is cloned")
    ct = [f for f in p.fns.values() if f.sq == PUB + "::DataMultiplexerPublisher"]
    c.need(ct, "%s has no constructor" % PUB)
    inst = "construction"
    for f in ct[:1]:
        L, ends, _ = ways(c, f)
        for e in ends:
            if e.kind != "ret" or not feasible(L, e):
                continue
            t, w = L.of(e), where(f, e)
            ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
            rg = [z for z in t.ev if z[0] == "STORE" and z[1] == ring]
            ob("own-ring", bool(rg) and is_arg(rg[-1][2][1], A(f, 4)), "the publisher keeps another ring")
            b = calls(t, r"^kpsr::Publisher::Publisher$")
            ob("own-name", len(b) == 1 and is_arg(strip(b[0][2][1]), A(f, 1)) and textof_key(L, e, b[0][2][2], t.at(b[0])) == AN(f, 2), "container or name do not come to the publisher")
            given = set_(t, L, e, A(f, 3)[1])
            for inst2, s in use.items():
                g = assigned(p, f, L, e, "this." + next(iter(s)))
                ok = g is not None and g[0] == "lambda"
                c.ob("cloner-set", inst2, ok, w, "no event can be cloned")
                if ok:
                    cap = captured(L, e, g[2], 0, g[3])
                    cloner(c, p, g[1], inst2, given, cap == A(f, 3)[1], w)
            for n in fns:
                if n not in {x for s in use.values() for x in s}:
                    time_source(c, p, f, L, e, "this." + n, inst, w)


def in_slot(L, e, v, k, off, pointee):
    """is that the shared pointer of a slot of the ring, or what it points to?"""
    t = L.of(e)
    if pointee:
        b = base(v)
        y = next((y for y in reversed(t.ev[:k]) if y[3] is not None and simp(y[3]) == b and y[0] in ("p.operator*", "p.operator->", "p.get", "LD")), None)
        if y is None:
            return False
        v, k = y[2][0], t.at(y)
    s = slot(t, v)
    if s is None:
        v, k = t.origin(v, k)
        s = slot(t, v)
    return s is not None and s[1] == off


def cloner(c, p, q, inst, given, cap, w):
    """the closure that clones: through the user's cloner if there is one, else by a copy"""
    L, ends, _ = ways(c, q)
    shared = inst.endswith("shared")
    for e in ends:
        if e.kind == "iter":
            c.ob("cloned-once", inst, not [z for z in L.of(e).mine if z[0] == "f.call"], where(q, e), "the cloner is called in a loop")
        if e.kind != "ret":
            continue
        t, w2 = L.of(e), where(q, e)
        ob = lambda ok, msg: c.ob("cloned-once", inst, ok, w2, msg)
        fc = [z for z in t.ev if z[0] == "f.call"]
        src, dst = A(q, 1), A(q, 2)
        isdst = lambda v, k: any(y[3] is not None and simp(y[3]) == base(v) and y[0] in ("p.operator*", "p.get", "p.operator->", "LD") and is_arg(t.origin(y[2][0], t.at(y))[0], dst) for y in t.ev[:k])
        issrc = lambda v, k: is_arg(v, src) if not shared else any(y[3] is not None and simp(y[3]) == base(v) and y[0] in ("p.operator*", "p.get", "p.operator->", "LD") and is_arg(t.origin(y[2][0], t.at(y))[0], src) for y in t.ev[:k])
        copies = [z for z in t.ev if z[0] == "CALL" and re.search(r"::operator=$", z[1]) and len(z[2]) > 1]
        mk = [z for z in t.ev if z[0] == "CALL" and z[1] in ("std::make_shared", "std::allocate_shared")]
        if given is True:
            ob(cap and len(fc) == 1 and len(fc[0][2]) == 3 and base(fc[0][2][0])[0] in ("arg", "ld", "call"), "the user's cloner is not called exactly once")
            for z in fc[:1]:
                ob(issrc(z[2][1], t.at(z)) and isdst(z[2][2], t.at(z)) and not copies and not mk, "the event is cloned into something else than the slot")
            continue
        ob(given is False and not fc, "without a cloner something else than a copy is made")
        good = [z for z in copies if isdst(z[2][0], t.at(z)) and issrc(z[2][1], t.at(z))]
        fresh = [z for z in mk if any(issrc(a, t.at(z)) for a in z[2][1:]) and any(y[0] == "p.assign" and is_arg(y[2][0], dst) and same(L, e, y[2][1], t.at(y), ptr(simp(z[2][0]))[0]) for y in t.ev[t.at(z):])]
        ob(len(good) + len(fresh) == 1 and len(copies) == len(good) and len(mk) == len(fresh), "the slot does not get exactly one copy of the event")


# ------------------------------------------------------------------ H06: handler of the data multiplexer
@prop("H06", "path-sensitive analysis of the way of an event from its slot to the listeners of one subscriber",
      "All paths of the handler for any event, time, name and position in a batch, and of the wiring in the subscriber; batches are formed by the processor, P03's subject.")
def h06(c):
    HND, SUB, DATA = HP + "DataMultiplexerEventHandler", HP + "DataMultiplexerSubscriber", HP + "DataMultiplexerDataWrapper"
    p = prog(c, ["(DataMultiplexerEventHandler<|DataMultiplexerSubscriber<)"], [r"^kpsr::high_performance::DataMultiplexerEventHandler<.*>::DataMultiplexerEventHandler.*", r"^kpsr::EventEmitterSubscriber<.*>::.*"])
    F = mems(c, p, DATA, {"data": r"shared_ptr<", "time": COUNT})
    M = mems(c, p, HND, {"name": STRING, "emitter": r"shared_ptr<"})
    N = {k: "this." + v[0] for k, v in M.items()}
    f = only(c, p, HND + "::on_event")
    L, ends, _ = ways(c, f)
    inst, ev, kinds = "handler", A(f, 1), set()
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        em, di = emits(t), emits(t, "discardEvent")
        if e.kind == "iter":
            ob("told-once", not em and not di, "events are told in a loop")
            continue
        if e.kind != "ret":
            continue
        last = t.st.facts.get(A(f, 3)) if t.st.facts.get(A(f, 3)) is not None else truthy(t.m, t.st, A(f, 3))
        if last is None:
            last = next((truthy(t.m, t.st, v) for v in t.st.env.values() if isinstance(v, tuple) and v and v[0] in ("cast", "ld", "arg") and strip(v) == A(f, 3) and truthy(t.m, t.st, v) is not None), None)
        ob("told-once", last is True and len(em) == 1 and not di or last is False and len(di) == 1 and not em, "the last event of a batch is not emitted exactly once, or an earlier one not discarded exactly once")
        kinds.add(last)
        for z in em + di:
            k = t.at(z)
            ob("own-emitter", L.desc(e, z[2][0], k).startswith(N["emitter"]), "the event goes to another emitter")
            ob("own-name", textof_key(L, e, z[2][1], k) == N["name"], "the event is told under another name than the subscriber's")
        for z in em:
            k = t.at(z)
            ob("own-time", len(z[2]) == 4 and any(y[0] == "LD" and strip(y[3]) == strip(z[2][2]) and ptr(simp(y[2][0]))[:2] == (ev, F["time"][1]) for y in t.ev), "the event is emitted with another enqueuing time than the one in its slot")
            v, j = inner(L, e, z[2][3], k) if len(z[2]) == 4 else (("c", 0), k)
            ob("own-event", ptr(simp(v))[:2] == (ev, F["data"][1]) or any(y[0] == "p.ctor" and ptr(simp(y[2][0])) == ptr(simp(v)) and len(y[2]) > 1 and ptr(simp(t.origin(y[2][1], t.at(y))[0]))[:2] == (ev, F["data"][1]) for y in t.ev[:j]), "another event is emitted")
            ob("event-intact", not [y for y in t.ev[:k] if y[2] and base(y[2][0]) == ev and y[0] in ("STORE", "p.reset", "p.assign", "p.swap")], "the event is changed before it is emitted")
    c.ob("told-once", inst, kinds == {True, False}, f.here(), "all events of a batch are told alike")
    for g in [g for g in p.fns.values() if g.sq.startswith(HND + "::") and g.sq != f.sq and "(anon)" not in g.sq and not re.search(r"::~?DataMultiplexerEventHandler$", g.sq)]:
        L, ends, _ = ways(c, g)
        for e in ends:
            c.ob("told-only-on-events", g.sq.rsplit("::", 1)[1], not emits(L.of(e)) and not emits(L.of(e), "discardEvent"), where(g, e), "listeners are told of an event outside on_event")
    ct = only(c, p, HND + "::DataMultiplexerEventHandler")
    L, ends, _ = ways(c, ct)
    for e in ends:
        if e.kind == "ret":
            c.ob("own-name", "construction", text_kept(L, e, N["name"], AN(ct, 1)), where(ct, e), "the handler keeps another name")
            c.ob("own-emitter", "construction", kept(L, e, N["emitter"], AN(ct, 2)), where(ct, e), "the handler keeps another emitter")
    f = only(c, p, SUB + "::DataMultiplexerSubscriber")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, "subscriber", ok, w, msg)
        b, h = calls(t, r"EventEmitterSubscriber::EventEmitterSubscriber$"), calls(t, r"DataMultiplexerEventHandler::DataMultiplexerEventHandler$")
        ob("own-emitter", len(b) == 1 and len(h) == 1 and t.name(h[0][2][2]).lstrip("&") == "this._eventEmitter", "the handler uses another emitter than the subscriber")
        if len(b) == 1 and len(h) == 1:
            ob("own-name", textof_key(L, e, h[0][2][1], t.at(h[0])) == "this.name" or L.text(e, h[0][2][1], t.at(h[0])) == (("ld", AN(f, 2)), ("ld", AN(f, 3))), "the handler uses another name than the subscriber")
            s = next((q for q in b[0][2] if L.text(e, q, t.at(b[0])) == (("ld", AN(f, 2)), ("ld", AN(f, 3)))), None)
            ob("own-name", s is not None and is_arg(strip(b[0][2][1]), A(f, 1)), "container, multiplexer and subscriber names do not come to the subscriber")


# ------------------------------------------------------------------ H07: provider and slots of the data multiplexer
@prop("H07", "path-sensitive analysis of the provider and of the initial slots, closures resolved to their bodies",
      "All paths of the constructors, caches and closures for any initializer, model event, name and container.")
def h07(c):
    PRV, DATA = HP + "DataMultiplexerMiddlewareProvider", HP + "DataMultiplexerDataWrapper"
    p = prog(c, ["(DataMultiplexerMiddlewareProvider<|DataMultiplexerDataWrapper<)"], [r"^kpsr::high_performance::DataMultiplexer(Publisher|Subscriber)<.*>::.*", r"^kpsr::(EventEmitterSubscriber|Publisher|Subscriber|EventTransformForwarder)<.*>::.*"])
    F = mems(c, p, DATA, {"data": r"shared_ptr<"})
    M = mems(c, p, PRV, {"name": STRING, "container": r"\*.*Container$", "ring": r"(disruptor4cpp::)?ring_buffer<", "pub": r".*DataMultiplexerPublisher<", "map": r"map<"})
    N = {k: "this." + v[0] for k, v in M.items()}
    fs = [f for f in p.fns.values() if f.sq == DATA + "::DataMultiplexerDataWrapper"]
    dflt = [f for f in fs if len(f.args) == 1]
    c.need(dflt, "%s has no default constructor" % DATA)
    for f in dflt[:1]:
        L, ends, _ = ways(c, f)
        for e in ends:
            if e.kind == "ret":
                t = L.of(e)
                own = [y for y in t.ev if y[2] and y[0] in ("p.ctor", "p.assign") and ptr(simp(y[2][0]))[:2] == (THIS, F["data"][1])]
                mk = [z for z in t.ev if z[0] == "CALL" and z[1] in ("std::make_shared", "std::allocate_shared") and len(z[2]) == 1]
                ok = len(mk) == 1 and (ptr(simp(mk[0][2][0]))[:2] == (THIS, F["data"][1]) or bool(own) and len(own[-1][2]) > 1 and same(L, e, own[-1][2][1], t.at(own[-1]), ptr(simp(mk[0][2][0]))[0]))
                c.ob("slot-owns-object", "default slot", ok, where(f, e), "a slot has no object of its own")
    for f in [f for f in p.fns.values() if f.sq == PRV + "::DataMultiplexerMiddlewareProvider"]:
        model = not any("function<" in tyname(p, f.argtype(i)) for i in (3,))
        inst = "from a model event" if model else "from an initializer"
        L, ends, _ = ways(c, f)
        bodies = {}
        for e in ends:
            if e.kind != "ret":
                continue
            t, w = L.of(e), where(f, e)
            ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
            rb = calls(t, r"ring_buffer::ring_buffer$")
            ob("own-ring", len(rb) == 1 and t.name(rb[0][2][0]).split(".cursor_")[0] == N["ring"], "the ring is not made once")
            for z in rb[:1]:
                q, o = None, None
                if len(z[2]) > 1:
                    q = function_of(p, f, L, e, z[2][1], t.at(z))
                ob("slots-initialised", q is not None and q[0] is not None, "the events of the ring are not set up")
                if q is not None and q[0] is not None:
                    bodies[q[0].name] = (q[0], captured_ref(t, q[1]), t.at(z))
            pb = calls(t, r"DataMultiplexerPublisher::DataMultiplexerPublisher$")
            ok = len(pb) == 1 and len(pb[0][2]) >= 5
            if ok:
                z, k = pb[0], t.at(pb[0])
                ok = t.name(z[2][0]).lstrip("&").startswith(N["pub"]) and is_arg(strip(z[2][1]), A(f, 1)) and textof_key(L, e, z[2][2], k) == AN(f, 2) and fn_at(L, e, z[2][3], k) == ("arg", A(f, 4)[1]) and member_at(L, e, z, 4, N["ring"])
            ob("own-arguments", ok, "container, name, cloner and ring do not all come to the publisher")
            ob("own-arguments", text_kept(L, e, N["name"], AN(f, 2)), "another name is kept")
            st = [z for z in t.ev if z[0] == "STORE" and z[1] == N["container"]]
            ob("own-arguments", bool(st) and is_arg(st[-1][2][1], A(f, 1)), "another container is kept")
        for q, cap, _ in bodies.values():
            (model_slot if model else init_slot)(c, p, q, inst, cap == A(f, 3), F["data"][1])
    f = only(c, p, PRV + "::getPublisher")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind == "ret":
            c.ob("same-object", "getPublisher", ptr(simp(e.val))[:2] == (THIS, M["pub"][1]), where(f, e), "something else than the publisher is given out")
    f = only(c, p, PRV + "::getSubscriber")

    def args(L, e, z):
        t, k = L.of(e), L.of(e).at(z)
        ok = len(z[2]) in (5, 6) and member_at(L, e, z, 1, N["container"]) and textof_key(L, e, z[2][2], k) == N["name"] and textof_key(L, e, z[2][3], k) == AN(f, 1) and member_at(L, e, z, 4, N["ring"])
        return ok, "container, names and ring do not all come to the subscriber"
    cached(c, p, f, N["map"], AN(f, 1), "getSubscriber", r"DataMultiplexerSubscriber<", args)
    f = only(c, p, PRV + "::setContainer")
    L, ends, _ = ways(c, f)
    n = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda ok, msg: c.ob("container-passed", "setContainer", ok, w, msg)
        sc = [z for z in t.mine if z[0] == "CALL" and z[1].endswith("::setContainer")]
        cont = lambda z: is_arg(strip(z[2][1]), A(f, 1)) or valdesc(L, e, z[2][1], t.at(z)) == N["container"] and any(q[0] == "STORE" and q[1] == N["container"] and is_arg(q[2][1], A(f, 1)) and any(y[0] == "LD" and strip(y[3]) == strip(z[2][1]) for y in t.ev[t.at(q):]) for q in t.ev[:t.at(z)])
        if e.kind == "iter":
            n += len(sc)
            ob(len(sc) == 1 and cont(sc[0]) and elem_of(L, e, sc[0][2][0], t.at(sc[0]), N["map"]), "a subscriber does not get the container exactly once")
        elif e.kind == "ret":
            ob(sum(1 for z in sc if ptr(simp(z[2][0]))[:2] == (THIS, M["pub"][1]) and cont(z)) == 1, "the publisher does not get the container exactly once")
            st = [z for z in t.ev if z[0] == "STORE" and z[1] == N["container"]]
            ob(bool(st) and is_arg(st[-1][2][1], A(f, 1)), "the container is not kept for new subscribers")
    c.ob("container-passed", "setContainer", n > 0, f.here(), "subscribers never get the container")


def elem_of(L, e, v, k, cont):
    """is that the object of an element of the map, by a copy of it or not?"""
    t = L.of(e)
    s = pointed(L, e, base(v), None)
    for u, j in ([s] if s else []) + [(v, k)]:
        if L.desc(e, u, j).startswith(cont + "[*]"):
            return True
        if "[*]" in t.name(u) and t.name(u).startswith(cont):
            return True
    return False


def captured_ref(t, b):
    """what a closure with one reference captured refers to"""
    st = [z for z in t.ev if z[0] == "STORE" and ptr(simp(z[2][0])) == (b, 0, ())]
    return ptr(simp(st[-1][2][1]))[0] if st else None


def init_slot(c, p, q, inst, cap, off):
    """the closure that calls the user's initializer on the event of a slot, if there is one"""
    L, ends, _ = ways(c, q)
    for e in ends:
        if e.kind == "iter":
            c.ob("slots-initialised", inst, not [z for z in L.of(e).mine if z[0] == "f.call"], where(q, e), "the initializer runs in a loop")
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(q, e)
        fc = [z for z in t.ev if z[0] == "f.call"]
        have = next((truthy(t.m, t.st, z[3]) for z in t.ev if z[0] in ("f.operator bool",)), None)
        if have is None:
            have = next((not truthy(t.m, t.st, z[3]) for z in t.ev if z[0] == "f._M_empty" and truthy(t.m, t.st, z[3]) is not None), None)
        c.ob("slots-initialised", inst, cap, w, "something else than the initializer sets the events up")
        if have is False:
            c.ob("slots-initialised", inst, not fc, w, "an initializer that is not there is called")
        else:
            ok = have is True and len(fc) == 1 and any(y[3] is not None and simp(y[3]) == base(fc[0][2][1]) and y[2] and ptr(simp(t.origin(y[2][0], t.at(y))[0]))[:2] == (A(q, 1), off) for y in t.ev)
            c.ob("slots-initialised", inst, ok, w, "the initializer is not called exactly once with the event of each slot")
        c.ob("slot-owns-object", inst, not [z for z in t.ev if z[2] and z[0] in ("p.assign", "p.reset", "p.swap") and base(z[2][0]) == A(q, 1)], w, "a slot loses its object")


def model_slot(c, p, q, inst, cap, off):
    """the closure that gives each slot a copy of the model event"""
    L, ends, _ = ways(c, q)
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(q, e)
        isslot = lambda v: ptr(simp(v))[:2] == (A(q, 1), off)
        ismodel = lambda v, k: cap and any(y[0] == "LD" and simp(y[3]) == base(v) and base(y[2][0]) == THIS for y in t.ev[:k])
        mk = [z for z in t.ev if z[0] == "CALL" and z[1] in ("std::make_shared", "std::allocate_shared") and len(z[2]) == 2 and ismodel(z[2][1], t.at(z))]
        put = [z for z in t.ev if z[2] and z[0] in ("p.assign", "p.swap", "p.reset") and isslot(z[2][0])]
        cp = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("::operator=") and len(z[2]) > 1 and ismodel(z[2][1], t.at(z)) and any(y[3] is not None and simp(y[3]) == base(z[2][0]) and isslot(t.origin(y[2][0], t.at(y))[0]) for y in t.ev if y[2])]
        ok = len(put) == 1 and len(mk) == 1 and not cp and put[0][0] == "p.assign" and same(L, e, put[0][2][1], t.at(put[0]), ptr(simp(mk[0][2][0]))[0]) or not put and not mk and len(cp) == 1
        c.ob("slot-owns-object", inst, ok, w, "a slot does not get a copy of the model event of its own")
