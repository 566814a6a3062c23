"""In-memory composition: the queue between a publisher and its poller, and the environment that lives in memory."""
import re

from ..build import REPO
from ..cont import KEEP
from ..core import prop
from ..sem import cmpv, ptr, simp, truthy
from ..sym import mkp
from .emitters import A, AN, is_arg, puts, strip, textof_key
from .envs import from_arg
from .fsm import where
from .highperf import STRING, fn_at, mems, pointed
from .props import bare, into
from .publishers import calls, only, text_kept, ways
from .schedulers import arg_value
from .services import THIS

MEM = "kpsr::mem::"
IN = MEM + "InMemoryMiddlewareProvider"
PARTS = [r"^kpsr::(mem::)?(EventEmitterSubscriber|BasicPublisher|SafeQueuePoller|ConcurrentQueuePublisher|ConcurrentQueuePoller|EventTransformForwarder|SafeQueue)<.*>::", r"^kpsr::mem::InMemoryQueuePoller::", r"^(std::shared_ptr<.*> )?kpsr::EventEmitterFactory::", r"^moodycamel::.*"]


def at_member(v, off):
    """does that pointer lead to the member at the offset of this object?"""
    return ptr(simp(v))[:2] == (THIS, off)


def held_in(v):
    """place that a loaded pointer was read from"""
    v = strip(v)
    return ptr(simp(mkp(v[1], v[2], v[3])))[:2] if v[0] == "ld" else None


def kept_in(t, off):
    """objects stored in the member at the offset, in order"""
    return [z for z in t.ev if z[0] == "STORE" and at_member(z[2][0], off)]


def on_poller(L, e, z, M):
    """is it an operation on the poller the provider has?"""
    v = pointed(L, e, z[2][0], L.of(e).at(z))
    if v is not None and at_member(v[0], M["poller"][1]):
        return True
    return held_in(z[2][0]) == (THIS, M["poller"][1])


# ------------------------------------------------------------------ M01
@prop("M01", "path-sensitive analysis of construction, use and destruction of the in-memory providers",
      "All paths of the providers' constructors, methods and destructors, for any arguments; publishers and pollers themselves are Q04's subject, the thread of a poller Q05's.")
def m01(c):
    p = c.program("poller.cpp", [r".*kpsr::mem::(InMemory|Basic|Concurrent)MiddlewareProvider<KMsg>::.*"], keep=PARTS, libkeep=KEEP, inline=[r"^std::make_unique$"])
    M = mems(c, p, IN, {"emitter": r"shared_ptr<.*EventEmitterInterface", "name": STRING, "publisher": r"unique_ptr<.*Publisher<", "poller": r"unique_ptr<.*InMemoryQueuePoller", "subscriber": r".*EventEmitterSubscriber<"})
    R = mems(c, p, MEM + "InMemoryQueuePoller", {"running": r"(atomic<)?bool"})
    en = next((t["enum"] for t in p.types if t.get("q") == "kpsr::EventEmitterType" and t.get("enum")), None)
    c.need(en and "SAFE" in en, "types of emitters are gone")
    for cls, queue, pub, pol in (("Basic", r".*SafeQueue<", "BasicPublisher", "SafeQueuePoller"), ("Concurrent", r".*ConcurrentQueue<", "ConcurrentQueuePublisher", "ConcurrentQueuePoller")):
        PRV = MEM + cls + "MiddlewareProvider"
        Q = mems(c, p, PRV, {"queue": queue, **({"token": r".*ProducerToken"} if cls == "Concurrent" else {})})
        construct(c, p, PRV, cls, M, Q, pub, pol, queue, en)
        destruct(c, p, PRV, cls, M, Q)
    for f in [f for f in p.fns.values() if f.sq == IN + "::InMemoryMiddlewareProvider"]:
        L, ends, _ = ways(c, f)
        for e in ends:
            if e.kind == "ret":
                common(c, f, L, e, "InMemory", M, lambda v: v is not None and is_arg(strip(v), A(f, 3)), None)
    for name in ("start", "stop"):
        drive(c, p, name, M)
    f = only(c, p, IN + "::isRunning")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind == "ret":
            t = L.of(e)
            c.ob("poller-asked", "isRunning", running(L, e, e.val, M, R), where(f, e), "the answer is not whether the poller runs")
    for name, kind in (("getPublisher", "publisher"), ("getSubscriber", "subscriber")):
        f = only(c, p, IN + "::" + name)
        L, ends, _ = ways(c, f)
        for e in ends:
            if e.kind == "ret":
                ok = at_member(e.val, M[kind][1])
                if kind == "publisher":
                    ok = held_in(e.val) == (THIS, M[kind][1])
                c.ob("gives-its-own", name, ok, where(f, e), "something else than the provider's own object is given out")
    f = only(c, p, IN + "::getProcessForwarder")
    L, ends, _ = ways(c, f)
    n = 0
    for e in ends:
        if e.kind == "ret":
            n += 1
            t, w = L.of(e), where(f, e)
            mk = calls(t, r"EventTransformForwarder::EventTransformForwarder$") or [z for z in t.ev if z[0] == "CALL" and z[1] in ("std::make_shared", "std::allocate_shared")]
            ok = len(mk) == 1 and len(mk[0][2]) == 3
            if ok:
                z, k = mk[0], t.at(mk[0])
                v = strip(z[2][2])
                v = next((strip(y[2][1]) for y in reversed(t.ev[:k]) if y[0] == "STORE" and ptr(simp(y[2][0])) == ptr(simp(v))), v)
                ok = fn_at(L, e, z[2][1], k) == ("arg", A(f, 1)[1]) and held_in(v) == (THIS, M["publisher"][1])
            c.ob("forwarder-wired", "getProcessForwarder", ok, w, "the forwarder does not get the function and the provider's publisher")
    c.ob("forwarder-wired", "getProcessForwarder", n > 0, f.here(), "no forwarder comes out")


def running(L, e, v, M, R):
    """is that value the flag of the poller, read here?"""
    t = L.of(e)
    v = bare(v)
    if v[0] == "c":
        # a flag asked on the way, with the answer given as a constant
        for z in t.ev:
            if z[3] is not None and z[2] and truthy(t.m, t.st, z[3]) is not None and truthy(t.m, t.st, z[3]) == bool(v[1]) and flag(z[2][0], M, R):
                return True
        return False
    return any(z[3] is not None and z[2] and bare(z[3]) == v and (flag(z[2][0], M, R) or z[0] == "CALL" and z[1].endswith("InMemoryQueuePoller::isRunning") and on_poller(L, e, z, M)) for z in t.ev)


def flag(v, M, R):
    b, off = ptr(simp(v))[:2]
    return off == R["running"][1] and held_in(b) == (THIS, M["poller"][1])


def common(c, f, L, e, inst, M, typed, later):
    """what every provider has: an emitter, a name, and a subscriber on that emitter"""
    t, w = L.of(e), where(f, e)
    ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
    em = calls(t, r"EventEmitterFactory::createEventEmitter$")
    ok = len(em) == 1 and (at_member(em[0][2][0], M["emitter"][1]) or any(y[0] in ("p.ctor", "p.assign") and at_member(y[2][0], M["emitter"][1]) and len(y[2]) > 1 and ptr(t.origin(y[2][1], t.at(y))[0]) == ptr(simp(em[0][2][0])) for y in t.ev))
    ob("own-emitter", ok, "the provider does not make one emitter and keep it")
    if em:
        ob("emitter-kind", typed(em[0][2][1]), "the emitter is not of the kind that was asked for, or not one that several threads can use")
    late = [y for y in t.ev if y[0] in ("p.assign", "p.reset", "p.swap") and y[2] and at_member(y[2][0], M["emitter"][1]) and em and t.at(y) > t.at(em[0]) and not (len(y[2]) > 1 and ptr(t.origin(y[2][1], t.at(y))[0]) == ptr(simp(em[0][2][0])))]
    ob("own-emitter", not late, "the emitter is replaced")
    ob("own-arguments", text_kept(L, e, "this." + M["name"][0], AN(f, 2)), "another name is kept")
    sb = calls(t, r"EventEmitterSubscriber::EventEmitterSubscriber$")
    ok = len(sb) == 1 and len(sb[0][2]) >= 4 and at_member(sb[0][2][0], M["subscriber"][1])
    if ok:
        z, k = sb[0], t.at(sb[0])
        ok = is_arg(strip(z[2][1]), A(f, 1)) and emitter_at(t, z[2][2], k, M, em) and textof_key(L, e, z[2][3], k) in (AN(f, 2), "this." + M["name"][0])
        ob("same-emitter", bool(em) and t.at(em[0]) < k, "the subscriber is made before the emitter it listens on")
    ob("same-emitter", ok, "the subscriber does not listen under the name on the provider's emitter")


def emitter_at(t, v, k, M, em):
    v = t.origin(v, k)[0]
    return at_member(v, M["emitter"][1]) or bool(em) and ptr(simp(v)) == ptr(simp(em[0][2][0]))


def construct(c, p, PRV, cls, M, Q, pub, pol, queue, en):
    fs = [f for f in p.fns.values() if f.sq == PRV + "::" + cls + "MiddlewareProvider"]
    c.need(fs, "the constructor of %s is gone" % PRV)
    n = 0
    safe = lambda v: strip(v)[0] == "c" and strip(v)[1] == en["SAFE"]
    for f in fs:
        L, ends, _ = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            n += 1
            t, w = L.of(e), where(f, e)
            ob = lambda rule, ok, msg: c.ob(rule, cls, ok, w, msg)
            common(c, f, L, e, cls, M, safe, None)
            P_, O_ = calls(t, r"mem::%s::%s$" % (pub, pub)), calls(t, r"mem::%s::%s$" % (pol, pol))
            ob("one-queue", len(P_) == 1 and len(O_) == 1, "not exactly one publisher and one poller are made")
            if len(P_) != 1 or len(O_) != 1:
                continue
            z, y = P_[0], O_[0]
            k, j = t.at(z), t.at(y)
            tok = "token" in Q
            nz, ny = (9, 6) if tok else (8, 5)
            c.need(len(z[2]) == nz and len(y[2]) == ny, "publisher or poller of %s take other arguments" % cls)
            ob("one-queue", at_member(z[2][6], Q["queue"][1]) and at_member(y[2][1], Q["queue"][1]), "publisher and poller do not share the provider's queue")
            if tok:
                ob("one-queue", at_member(z[2][8], Q["token"][1]) and at_member(y[2][5], Q["token"][1]), "publisher and poller do not share the provider's token")
                mk = calls(t, r"moodycamel::ProducerToken::ProducerToken$")
                ob("queue-first", len(mk) == 1 and at_member(mk[0][2][0], Q["token"][1]) and at_member(mk[0][2][1], Q["queue"][1]), "the token is not one of the provider's queue")
            mk = [x for x in t.ev if x[0] == "CALL" and re.search(r"(SafeQueue::SafeQueue|ConcurrentQueue::ConcurrentQueue)$", x[1]) and at_member(x[2][0], Q["queue"][1])]
            ob("queue-size", len(mk) == 1 and len(mk[0][2]) > 1 and arg_value(t, L, e, unext(mk[0][2][1]), t.at(mk[0]), A(f, 3)), "the queue does not have the size that was asked for")
            if tok and len(mk) == 1:
                tk = calls(t, r"moodycamel::ProducerToken::ProducerToken$")
                ob("queue-first", bool(tk) and t.at(mk[0]) < t.at(tk[0]), "the token is made before its queue")
                ob("queue-size", len(mk[0][2]) < 4 or all(strip(a)[0] != "c" or strip(a)[1] >= 1 for a in mk[0][2][2:3]), "the queue has no place for the events of a producer")
            ob("queue-first", len(mk) == 1 and t.at(mk[0]) < min(k, j), "publisher or poller are made before the queue")
            given = textof_key(L, e, z[2][2], k) in (AN(f, 2), "this." + M["name"][0]) and textof_key(L, e, y[2][3], j) in (AN(f, 2), "this." + M["name"][0])
            given = given and is_arg(strip(z[2][1]), A(f, 1)) and arg_value(t, L, e, z[2][3], k, A(f, 4)) and fn_at(L, e, z[2][4], k) == ("arg", A(f, 5)[1]) and fn_at(L, e, z[2][5], k) == ("arg", A(f, 6)[1]) and arg_value(t, L, e, unext(z[2][7]), k, A(f, 7))
            ob("own-arguments", given, "container, name, pool size, functions and mode do not all come to the publisher")
            ob("same-emitter", emitter_at(t, y[2][2], j, M, calls(t, r"createEventEmitter$")), "the poller emits on another emitter than the subscriber's")
            if tok:
                ob("own-arguments", arg_value(t, L, e, unext(y[2][4]), j, A(f, 8)), "the poller does not wait for the given period")
            for kind, q in (("publisher", z), ("poller", y)):
                s = kept_in(t, M[kind][1])
                ob("kept", bool(s) and ptr(simp(s[-1][2][1])) == ptr(simp(q[2][0])), "the %s is not kept" % kind)
            ob("not-started", not calls(t, r"InMemoryQueuePoller::start$") and not [x for x in t.ev if x[0] == "CALL" and x[1].startswith("vcall#") and any(r in x[1] for r in ("_poller",)) and not t.at(x) > j], "the poller runs before it is started")
    c.ob("one-queue", cls, n > 0, "", "no provider is ever made")


def unext(v):
    v = strip(v)
    while v[0] in ("ext", "trunc", "zext", "sext") or v[0] == "cast":
        v = strip(v[3] if v[0] == "cast" else v[1])
    while v[0] == "cmp" and v[1] == "ne" and v[3] == ("c", 0):
        v = strip(v[2])
    return v


def destruct(c, p, PRV, cls, M, Q):
    fs = [f for f in p.fns.values() if f.sq.startswith(PRV + "::~")]
    if not fs:
        c.ob("stopped-first", cls, False, PRV, "the provider has no destructor that stops the poller before its queue goes")
    for f in fs:
        L, ends, _ = ways(c, f)
        n = 0
        for e in ends:
            if e.kind != "ret":
                continue
            n += 1
            t, w = L.of(e), where(f, e)
            stop = [k for k, z in enumerate(t.ev) if z[0] == "LD" and at_member(z[2][0], M["poller"][1]) and truthy(t.m, t.st, z[3]) is False or z[0] == "CALL" and z[1].endswith("InMemoryMiddlewareProvider::stop") and ptr(simp(z[2][0]))[0] == THIS]
            stop += [k for k, z in enumerate(t.ev) if z[0] == "CALL" and z[2] and (z[1].endswith("InMemoryQueuePoller::stop") or re.match(r"vcall#[01]\(", z[1])) and on_poller(L, e, z, M)]
            gone = [k for k, z in enumerate(t.ev) if z[2] and ptr(simp(z[2][0]))[0] == THIS and (z[0] == "CALL" and "::~" in z[1] and "InMemoryMiddlewareProvider" not in z[1] or z[0] in ("p.dtor", "s.dtor", "f.dtor"))]
            c.ob("stopped-first", cls, bool(stop) and (not gone or min(stop) < gone[0]), w, "queue, token, subscriber or emitter go while the poller may still run")
        c.ob("stopped-first", cls, n > 0, f.here(), "the destructor never comes back")


def drive(c, p, name, M):
    f = only(c, p, IN + "::" + name)
    L, ends, _ = ways(c, f)
    n = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        cs = [z for z in t.mine if z[0] == "CALL" and re.search(r"InMemoryQueuePoller::(start|stop)$", z[1])]
        if e.kind == "iter":
            c.ob("poller-driven", name, not cs, w, "the poller is started or stopped in a loop")
        elif e.kind == "ret":
            n += 1
            c.ob("poller-driven", name, len(cs) == 1 and cs[0][1].endswith("::" + name) and on_poller(L, e, cs[0], M), w, "the poller is not made to %s" % name)
    c.ob("poller-driven", name, n > 0, f.here(), "the method never comes back")


# ------------------------------------------------------------------ M02
ENV = MEM + "MemEnv"


@prop("M02", "path-sensitive analysis of the in-memory environment over a map model, with locks held",
      "All paths of its getters and setters, for any key, value, default and contents.")
def m02(c):
    p = c.program(REPO + "/core/modules/mem_mdlw/src/mem_env.cpp", [r".*kpsr::mem::MemEnv::.*"], libkeep=KEEP)
    uses, keys, mutexes = {}, {}, set()
    maps = {"this." + x["name"] for t in p.types if (t.get("q") or "") == ENV and t.get("mem") for x in t["mem"] if re.match(r"(std::)?(unordered_)?map<", (p.types[p.strip(x["ty"])].get("name") or ""))}
    c.need(maps, "MemEnv has no maps")
    for kind in ("String", "Int", "Float", "Bool"):
        for what in ("get", "set"):
            f = only(c, p, ENV + "::%sProperty%s" % (what, kind))
            L, ends, _ = ways(c, f)
            name = what + kind
            seen = set()
            for e in ends:
                locked(c, f, L, e, name, maps, mutexes)
                if e.kind == "iter":
                    c.ob("one-entry", name, False, where(f, e), "the values are gone through in a loop")
                if e.kind == "ret":
                    seen.add((getter if what == "get" else setter)(c, f, L, e, kind, maps, uses, keys))
            c.ob("presence-known" if what == "get" else "value-kept", name, seen >= ({True, False} if what == "get" else {None}), f.here(), "a value is never found, or never missed" if what == "get" else "nothing is ever stored")
    for kind, s in uses.items():
        c.ob("same-map", kind, len(s) == 1 and not any(s & o for k, o in uses.items() if k != kind), "", "values of one type are looked up and stored in different maps, or mixed with another type's: %s" % sorted(s))
    for kind, s in keys.items():
        c.ob("same-key", kind, len(s) == 1, "", "values are looked up and stored under different keys: %s" % sorted(s, key=str))
    c.ob("locked", "mutex", len(mutexes) == 1, "", "not one mutex guards all values: %s" % sorted(mutexes))
    c.assumption("std::map, std::string and std::mutex follow the standard")


def locked(c, f, L, e, name, maps, mutexes):
    t, w = L.of(e), where(f, e)
    held, mine = [], set(map(id, t.mine))
    for y in t.ev:
        if y[0] == "LOCK":
            c.ob("locked", name, y[1] not in held, w, "the mutex is locked twice")
            held.append(y[1])
            mutexes.add(y[1])
        elif y[0] == "UNLOCK":
            c.ob("locked", name, y[1] in held, w, "a mutex is unlocked that is not held")
            held = [h for h in held if h != y[1]]
        elif id(y) in mine and y[2] and y[0] not in ("LOOP",):
            on = L.cname(e, y) in maps
            if not on:
                for q in y[2]:
                    d = L.desc(e, q, t.at(y)) or ""
                    on = on or any(d.startswith((m + "{", m + "[")) for m in maps)
            if on:
                c.ob("locked", name, bool(held), w, "values are used without holding the mutex")
    if e.kind in ("ret", "throw", "exc"):
        c.ob("locked", name, not held, w, "the mutex stays locked")


def rooted(tx, f, root):
    """a key as a function of the parameters key and root"""
    return tuple(("key",) if x == ("ld", AN(f, 1)) else ("root",) if x == ("ld", root) else x for x in tx)


def looked_up(L, e, maps):
    """(map, key, known to be there?, events) of the look-ups on a path"""
    t = L.of(e)
    for y in t.ev:
        if y[0] not in ("find", "count", "mapat", "mapget") or L.cname(e, y) not in maps:
            continue
        k = t.at(y)
        r = None
        if y[0] == "find":
            for z in t.ev:
                if z[0] == "end" and L.cname(e, z) == L.cname(e, y):
                    d = t.m.decide(t.st, cmpv("eq", simp(y[3]), simp(z[3])))
                    r = r if d is None else not d
        elif y[0] == "count":
            r = truthy(t.m, t.st, y[3])
        yield L.cname(e, y), L.text(e, y[2][1], k), r, y


def getter(c, f, L, e, kind, maps, uses, keys):
    t, w = L.of(e), where(f, e)
    name = "get" + kind
    ob = lambda rule, ok, msg: c.ob(rule, name, ok, w, msg)
    lk = list(looked_up(L, e, maps))
    ask = [x for x in lk if x[2] is not None]
    has = ask[0][2] if ask else None
    c.ob("presence-known", name, has is not None and len({x[:2] for x in lk}) == 1, w, "whether there is a value for the key is not asked, or asked for more than one key")
    if has is None:
        return None
    m, tx = ask[0][:2]
    uses.setdefault(kind, set()).add(m)
    root = AN(f, len(f.args) - 1)
    keys.setdefault(kind, set()).add(rooted(tx, f, root))
    ob("same-key", ("ld", AN(f, 1)) in tx, "the value is not looked up under its key")
    ob("nothing-changed", not changed(L, e, maps), "looking up a value changes what is stored")
    ob("reports-presence", (truthy(t.m, t.st, e.val) is has), "the result is not whether there is a value")
    wr = [z for _, z in into(t, A(f, 2))]
    if not has:
        ob("default-when-absent", bool(wr) and (from_arg(t, L, e, wr[-1], A(f, 3)[1]) or textof_last(L, e, wr[-1]) == AN(f, 3)), "an absent value does not come back as the default")
        return has
    el = "%s{%s}" % (m, one_key(tx))
    z = wr[-1] if wr else None
    ok = z is not None and source(L, e, z) in (el, el + "->")
    ob("value-kept", ok, "something else than the stored value comes back")
    return has


def one_key(tx):
    from ..cont import show
    return show(tx)


def textof_last(L, e, z):
    return textof_key(L, e, z[2][1], L.of(e).at(z)) if len(z[2]) > 1 and z[0].startswith("s.") else None


def source(L, e, z):
    """name of what a write takes its value from"""
    t = L.of(e)
    k = t.at(z)
    if z[0] in ("s.ctor", "s.assign", "s.swap"):
        tx = L.text(e, z[2][1], k)
        return tx[0][1] if len(tx) == 1 and tx[0][0] == "ld" else None
    if z[0] == "STORE":
        v = strip(z[2][1])
        while v[0] in ("ext", "trunc", "zext") or v[0] == "cmp" and v[1] == "ne" and v[3] == ("c", 0):
            v = strip(v[1] if v[0] != "cmp" else v[2])
        if v[0] == "ld":
            for y in reversed(t.ev[:k]):
                if y[0] == "STORE" and ptr(simp(y[2][0])) == ptr(simp(v[1])):
                    return source(L, e, y)
            return L.desc(e, z[2][1], k)
    if z[0] == "COPY":
        return L.desc(e, z[2][1], k)
    return None


def changed(L, e, maps):
    t = L.of(e)
    o = [y for y in t.ev if y[2] and y[0] in ("insert", "erase", "clear", "mapat", "assign", "swap", "merge", "extract", "assign-key") and L.cname(e, y) in maps]
    return o + [x for m in maps for x in puts(L, e, m)]


def setter(c, f, L, e, kind, maps, uses, keys):
    t, w = L.of(e), where(f, e)
    name = "set" + kind
    ob = lambda rule, ok, msg: c.ob(rule, name, ok, w, msg)
    root = AN(f, len(f.args) - 1)
    w_ = [(m, x) for m in maps for x in puts(L, e, m)]
    bad = [y for y in t.ev if y[2] and y[0] in ("erase", "clear", "swap", "merge", "extract") and L.cname(e, y) in maps]
    ob("one-entry", not [y for y in bad if not (y[0] == "erase" and w_ and t.at(y) < t.at(w_[0][1][2]) and L.cname(e, y) == w_[0][0])], "other values are dropped")
    ob("one-entry", len({(m, x[0]) for m, x in w_}) == 1, "not exactly one value is stored")
    if not w_:
        return False
    m, x = w_[-1]
    uses.setdefault(kind, set()).add(m)
    # the key: of the look-up that made the place, or of the insertion
    ky = [L.text(e, y[2][1], t.at(y)) for y in t.ev if y[2] and len(y[2]) > 1 and y[0] in ("mapat", "insert", "assign-key", "find", "count", "mapget") and L.cname(e, y) == m and len(y[2]) != 2 or y[2] and len(y[2]) == 2 and y[0] in ("mapat", "find", "count", "mapget") and L.cname(e, y) == m]
    ky = {k for k in ky}
    if not ky:
        keys.setdefault(kind, set()).add(((("key",)),) if x[0] == AN(f, 1) else (x[0],))
    for k in ky:
        keys.setdefault(kind, set()).add(rooted(k, f, root))
        ob("same-key", ("ld", AN(f, 1)) in k, "the value is not stored under its key")
    z = x[2]
    if z[0] == "STORE":
        ok = from_arg(t, L, e, z, A(f, 2)[1])
    elif isinstance(x[1], tuple) and x[1][0] == "second":
        ok = second_is(L, e, x[1][1], t.at(z), AN(f, 2)) or valued(L, e, x[1][1], t.at(z), f)
    else:
        ok = textof_key(L, e, x[1], t.at(z)) == AN(f, 2) or from_arg(t, L, e, ("COPY", None, (None, x[1])), A(f, 2)[1])
    if z[0] == "insert":
        gone = [y for y in bad if y[0] == "erase"]
        miss = any(r is False for mm, tx, r, y in looked_up(L, e, maps) if mm == m)
        ok = ok and (bool(gone) or miss)
    ob("value-kept", ok, "something else than the given value is stored")
    return None


def second_is(L, e, v, k, name):
    """is the second part of a pair that text?"""
    b = ptr(simp(v))
    from ..sym import mkp
    for off in (32,):
        if textof_key(L, e, mkp(b[0], b[1] + off, ()), k) == name:
            return True
    return False


def valued(L, e, v, k, f):
    t = L.of(e)
    b = ptr(simp(v))
    for y in reversed(t.ev[:k]):
        if y[0] == "STORE" and ptr(simp(y[2][0]))[0] == b[0] and ptr(simp(y[2][0]))[1] == b[1] + 32:
            return from_arg(t, L, e, y, A(f, 2)[1])
    return False
