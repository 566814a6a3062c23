"""Publishers with an object pool, the emitter publisher and its provider, forwarders and middleware channels."""
import os
import re

from ..build import VERIF
from ..cont import KEEP, Loops, changes
from ..core import prop
from ..sem import Ev, cmpv, lsum, ptr, simp, truthy, walk
from ..sym import linv
from .emitters import A, AN, UNIT, equal, held, is_arg, isnull, made, members, result, strip, textof_key, wraps
from .fsm import where
from .services import THIS, bound, sev

CHAN = os.path.join(VERIF, "units", "channels.cpp")
POOLPUB = "kpsr::ObjectPoolPublisher"
QUIET = re.compile(r"^std::(__cxx11::|__shared|shared_ptr|unique_ptr|_|function::function|function::operator=|allocat)|^llvm|::~|spdlog|fmt")


def pev():
    base = sev()

    def ev(m, x, st, vals, res):
        if x.op in ("call", "invoke") and x.callee == "__cxa_begin_catch":
            return Ev(("CATCH", None, (), None, x.i, None))
        return base(m, x, st, vals, res)
    ev.again = base.again
    return ev


def ways(c, f, **kw):
    c.analysed(f)
    ends, m = walk(f, pev(), throws=lambda x: not QUIET.search(x.callee or ""), sticky=changes(None), **kw)
    ends = [e for e in ends if e.kind != "stop" and not (e.x is not None and e.x.op == "unreachable")]
    c.count("paths", len(ends))
    return Loops(ends, f), ends, m


def calls(t, rx):
    return [z for z in t.mine if z[0] == "CALL" and re.search(rx, z[1])]


def vname(p, t, z, cls):
    """name of the method an event calls, for a virtual call through that class"""
    g = re.match(r"vcall#(\d+)", z[1])
    if not g:
        return z[1].rsplit("::", 1)[1]
    ty = next((n for n, q in enumerate(p.types) if re.match(re.escape(cls) + r"(<.*>)?$", q.get("q") or "") and q.get("mem")), None)
    n = p.vmethod(ty, int(g.group(1))) if ty is not None else None
    return re.sub(r"<.*>|\(.*", "", n or "?").rsplit("::", 1)[-1]


def fn_at(L, e, v, k):
    """place of a function object: ("member", name) of the publisher, ("own", offset) of the closure, ("arg", n) or None"""
    v, k = L.of(e).origin(v, k)
    b, off, _ = ptr(simp(v))
    if b == THIS:
        return "own", off
    if b[0] == "arg":
        return "arg", b[1]
    n = L.of(e).name(v).lstrip("&")
    g = re.search(r"->(\w+)$", n)
    return ("member", g.group(1)) if g else None


def lambda_of(p, f, t, z):
    """the body of the lambda a std::function is made from by this event"""
    d = t.fn.insts[z[4]].get("dem") or ""
    r = []
    for q in p.fns.values():
        if q.sq.endswith("operator()") and "(anon)" in q.sq:
            h = q.dem[:q.dem.rfind("::operator()(")]
            if h and (h + ">" in d or h + "," in d or h + " " in d or h + "&" in d):
                r.append(q)
    return max(r, key=lambda q: len(q.dem)) if r else None


def assigned(p, f, L, e, member):
    """what a function member is last set to on this path: ("param", n), ("null",), ("lambda", body, closure) or None"""
    t = L.of(e)
    last = None
    for z in t.ev:
        if z[0] in ("f.ctor", "f.assign", "f.swap") and z[2] and t.name(z[2][0]).lstrip("&") == member:
            last = z
    if last is None:
        return None
    z, k = last, t.at(last)
    for _ in range(4):
        if len(z[2]) < 2 or isnull(t, z[2][1]) is True:
            return ("null",)
        q = lambda_of(p, f, t, z)
        if q is not None:
            return "lambda", q, ptr(simp(z[2][1]))[0], k
        v, j = t.origin(z[2][1], k)
        b = ptr(simp(v))
        if b[0][0] == "arg":
            return "param", b[0][1]
        y = [y for y in t.ev[:k] if y[0] == "f.ctor" and ptr(simp(y[2][0])) == ptr(simp(z[2][1]))]
        if not y:
            return None
        z, k = y[-1], t.at(y[-1])
    return None


def captured(L, e, base, off, k):
    """parameter a closure has captured at that offset"""
    t = L.of(e)
    for y in t.ev[:k]:
        if y[0] == "f.ctor" and len(y[2]) > 1 and ptr(simp(y[2][0])) == (base, off, ()):
            v, _ = t.origin(y[2][1], t.at(y))
            b = ptr(simp(v))[0]
            return b[1] if b[0] == "arg" else None
    return None


def set_(t, L, e, n):
    """was that function parameter found to be set on this path?"""
    r = None
    for z in t.ev:
        if z[0] == "f.operator bool" or z[0] == "f.empty":
            v, _ = t.origin(z[2][0], t.at(z))
            if ptr(simp(v))[0] == ("arg", n):
                b = truthy(t.m, t.st, z[3])
                r = b if b is not None else r
    return r


def feasible(L, e):
    """leaves out ways that find a function object, or a member set before, once empty and once not"""
    t = L.of(e)
    seen = {}
    for z in t.ev:
        if z[0] == "f.operator bool":
            v, _ = t.origin(z[2][0], t.at(z))
            b = ptr(simp(v))
            x = truthy(t.m, t.st, z[3])
            if b[0][0] == "arg" and b[0] != THIS and x is not None and seen.setdefault(b, x) != x:
                return False
        elif z[0] == "STORE" and re.match(r"this\.\w+$", str(z[1])):
            seen[z[1]] = isnull(t, z[2][1])
        elif z[0] == "CALL" and not QUIET.search(z[1]) and z[2] and any(ptr(simp(a))[0] == THIS for a in z[2]):
            seen = {k: x for k, x in seen.items() if not isinstance(k, str)}
        elif z[0] == "LD" and z[1] in seen:
            x = isnull(t, z[3])
            if x is not None and seen[z[1]] is not None and x != seen[z[1]]:
                return False
    return True


def user_call(c, q, cap, n):
    """a body that hands its n arguments to the captured function exactly once"""
    L, ends, m = ways(c, q)
    seen = False
    for e in ends:
        if e.kind == "iter":
            return False
        if e.kind != "ret":
            continue
        t = L.of(e)
        fc = [z for z in t.ev if z[0] == "f.call"]
        if len(fc) != 1 or fn_at(L, e, fc[0][2][0], t.at(fc[0])) != ("own", cap):
            return False
        a = fc[0][2][1:]
        if len(a) != n or any(not is_arg(a[i], A(q, i + 1)) for i in range(n)):
            return False
        seen = True
    return seen


def idle(c, q):
    L, ends, m = ways(c, q)
    return all(e.kind == "ret" and not [z for z in L.of(e).ev if z[0] not in ("LD",)] for e in ends)


def copies(c, q):
    """a body that assigns its first argument to the second"""
    L, ends, m = ways(c, q)
    seen = False
    for e in ends:
        if e.kind == "iter":
            return False
        if e.kind != "ret":
            continue
        cs = [z for z in L.of(e).ev if z[0] in ("CALL", "COPY", "s.assign", "f.call", "STORE")]
        if len(cs) != 1 or not cs[0][1].endswith("::operator=") or len(cs[0][2]) != 2 or not is_arg(cs[0][2][0], A(q, 2)) or not is_arg(cs[0][2][1], A(q, 1)):
            return False
        seen = True
    return seen


class Pool:
    def __init__(self, c, p):
        m = members(c, p, POOLPUB, {"init": r"function<void \([^,)]*\)>$", "clone": r"function<void \(const .*,.*\)>$", "make": r"function<std::shared_ptr<.*\(const .*\)>$", "proc": r"function<std::shared_ptr<.*\((void)?\)>$"})
        self.init, self.clone, self.make, self.proc = (m[k] for k in ("init", "clone", "make", "proc"))
        self.iname, self.cname = self.init[5:], self.clone[5:]


def creator(c, q, S, process):
    """all ways of making an event: checked by themselves, and what they depend on"""
    L, ends, m = ways(c, q)
    inst = "processAndPublish" if process else "publish"
    r = []
    for e in ends:
        t, w = L.of(e), where(q, e)
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        if e.kind == "iter":
            ob("one-event", not [z for z in t.mine if z[0] in ("f.call", "CALL") and "::~" not in z[1]], "an event is made in a loop")
            continue
        ct = [z for z in t.ev if z[0] == "CATCH"]
        acq = calls(t, r"SmartObjectPool.*::acquire$")
        for z in ct:
            i = t.at(z)
            b = [y for y in t.ev[:i] if y[0] == "f.call" or y[0] == "CALL" and not QUIET.search(y[1])]
            ob("failures-reported", bool(b) and b[-1] in acq, "an exception of the functions of the user is taken for an exhausted pool")
        if e.kind != "ret":
            continue
        ob("acquired-once", len(acq) <= 1, "several objects are taken from the pool for one event")
        mk = [z for z in t.ev if z[0] == "CALL" and z[1] in ("std::make_shared", "std::allocate_shared")]
        failed = bool(acq) and bool(ct)
        src = mk if failed or not acq else acq
        ob("one-event", len(src) == 1 and (src is mk or not mk), "not exactly one event is made")
        if len(src) != 1:
            continue
        obj = simp(src[0][2][0])
        copied = src is mk and len(mk[0][2]) > 1
        if copied:
            ob("event-copied", not process and len(mk[0][2]) == 2 and is_arg(mk[0][2][1], A(q, 1)), "the new event is a copy of something else")
        ret = [z for z in t.ev if z[0] in ("p.ctor", "p.assign") and simp(z[2][0]) == ("arg", 0)]
        ob("event-returned", ptr(obj)[0] == ("arg", 0) or len(ret) >= 1 and len(ret[-1][2]) > 1 and same(L, e, ret[-1][2][1], t.at(ret[-1]), obj), "another object than the one made is published")
        ini, clo = [], []
        guard = {}
        for z in t.ev:
            if z[0] == "f.operator bool":
                g = fn_at(L, e, z[2][0], t.at(z))
                if g and g[0] == "member":
                    guard[g[1]] = truthy(t.m, t.st, z[3])
            if z[0] != "f.call":
                continue
            g = fn_at(L, e, z[2][0], t.at(z))
            if g == ("member", S.iname):
                ob("own-event", len(z[2]) == 2 and pointee(L, e, z[2][1], t.at(z), obj), "something else than the new event is initialised")
                ini.append(t.at(z))
            elif g == ("member", S.cname):
                ob("cloned", len(z[2]) == 3 and is_arg(z[2][1], A(q, 1)) and pointee(L, e, z[2][2], t.at(z), obj), "the cloner does not get the published event and the new one")
                clo.append(t.at(z))
            else:
                ob("own-event", False, "a function that is neither the initializer nor the cloner gets the event")
        add = [z for z in t.ev if z[0] in ("STORE", "RMW") and str(z[1]).endswith("publicationStats._totalEventAllocations")]
        good = all(z[0] == "STORE" and any(y[0] == "LD" and y[1] == z[1] and linv(z[2][1]) == lsum(linv(y[3]), linv(("c", 1)), 1) for y in t.ev[:t.at(z)]) or z[0] == "RMW" and z[5] == "add" and strip(z[2][1]) == ("c", 1) for z in add)
        ob("allocations-counted", good and len(add) == len(mk), "the statistics do not count exactly the allocated events")
        noini = guard.get(S.iname) is False
        if process:
            ob("initialised", len(ini) == 1 or noini and not ini, "the event is not initialised exactly once before it is processed")
            ob("cloned", not clo, "an event is cloned that nobody has published")
        elif copied:
            ob("initialised", not ini, "the copy of the event is overwritten")
            ob("cloned", not clo, "the event is copied twice")
        else:
            ob("cloned", len(clo) == 1, "the event is not cloned exactly once")
            ob("initialised", (len(ini) == 1 or noini and not ini) if src is mk else len(ini) <= 1, "a new event is not initialised exactly once before cloning")
            ob("initialised", all(i < k for i in ini for k in clo), "the clone is overwritten by the initializer")
        pool = None
        for z in t.ev:
            if z[0] == "LD" and z[1].endswith("->" + S.pool):
                b = isnull(t, z[3])
                pool = b if b is not None else pool
        r.append(("failed" if failed else "ok" if acq else None, copied, pool, w))
    c.ob("one-event", inst, bool(r), q.here(), "no event is ever made")
    return r


def same(L, e, v, k, obj):
    """does that shared pointer, here, hold what was made into obj?"""
    o, _ = L.of(e).origin(v, k)
    return ptr(simp(o)) == ptr(obj) or ptr(simp(v)) == ptr(obj)


def pointee(L, e, v, k, obj):
    """does v point to the object held by the shared pointer obj?"""
    v = strip(v)
    t = L.of(e)
    b, off, _ = ptr(v)
    if off or b[0] != "ld":
        return False
    for z in t.ev[:k]:
        if z[0] in ("LD", "p.get", "p.operator*", "p.operator->") and z[3] is not None and strip(z[3]) == v:
            return same(L, e, z[2][0], t.at(z), obj)
    o, _ = t.origin(("p", b[1], b[2], b[3]) if len(b) > 3 else v, k)
    return ptr(simp(o)) == ptr(obj)


@prop("P04", "path-sensitive analysis of the making of events, closures resolved to their bodies",
      "All paths of the constructor, of every creator function it installs, of publish and processAndPublish; any pool size, initializer, cloner (or none) and exhaustion of the pool.")
def p04(c):
    p = c.program(UNIT, [r".*kpsr::ObjectPoolP.*"], keep=[r".*SmartObjectPool<.*", r"^([a-zA-Z:]+[ &]*)?unit::Event::operator="], libkeep=KEEP)
    S = Pool(c, p)
    fs = [f for f in p.fns.values() if f.sq == POOLPUB + "::ObjectPoolPublisher"]
    c.need(fs, "constructor of the publisher is gone")
    f = fs[0]
    L, ends, m = ways(c, f)
    size, init, clone, fin = A(f, 4), A(f, 5), A(f, 6), A(f, 7)
    inst = "construction"
    S.pool = next((n.rsplit(".", 1)[1] for e in ends for z in L.of(e).ev if z[0] == "STORE" for n in [str(z[1])] if re.match(r"this\.\w+$", n) and any(y[0] == "CALL" and y[1].endswith("SmartObjectPool::SmartObjectPool") and ptr(simp(y[2][0])) == ptr(simp(z[2][1])) for y in L.of(e).ev)), None)
    c.ob("pool-made", inst, S.pool is not None, f.here(), "no pool is kept")
    if S.pool is None:
        return
    done, rows = {}, []
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind != "ret" or not feasible(L, e):
            continue
        ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
        zero = t.m.decide(t.st, cmpv("eq", strip(size), ("c", 0)))
        mk = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("SmartObjectPool::SmartObjectPool")]
        st = [z for z in t.ev if z[0] == "STORE" and z[1] == "this." + S.pool]
        if zero is True:
            ob("pool-made", not mk and bool(st) and isnull(t, st[-1][2][1]) is True, "a publisher without pool has one")
        else:
            ok = zero is False and len(mk) == 1 and len(mk[0][2]) == 5 and bool(st) and ptr(simp(st[-1][2][1])) == ptr(simp(mk[0][2][0]))
            ob("pool-made", ok, "a publisher with a pool size gets no pool, or uses it without having one")
            if ok:
                z = mk[0]
                ob("pool-filled", equal(t, z[2][2], size) and fn_at(L, e, z[2][3], t.at(z)) == ("arg", init[1]) and fn_at(L, e, z[2][4], t.at(z)) == ("arg", fin[1]), "the pool is not made with the given size, initializer and finalizer")
        cn = [z for z in t.ev if z[0] == "STORE" and z[1].endswith("publicationStats._totalEventAllocations")]
        ob("allocations-counted", bool(cn) and equal(t, cn[-1][2][1], size), "the objects of the pool are not counted as allocated")
        for member, par, n, default, msg in ((S.init, init, 1, idle, "initializer"), (S.clone, clone, 2, copies, "cloner")):
            a = assigned(p, f, L, e, member)
            given = set_(t, L, e, par[1])
            if a is None or a[0] == "null" and not (member == S.init and given is False):
                ob("functions-kept", False, "the %s is not set" % msg)
            elif a[0] == "lambda":
                key = (a[1].name, msg)
                if key not in done:
                    done[key] = None
                    L2, e2, _ = ways(c, a[1])
                    caps = {fn_at(L2, x, z[2][0], L2.of(x).at(z)) for x in e2 for z in L2.of(x).ev if z[0] == "f.call"}
                    done[key] = ("user", next(iter(caps))[1]) if len(caps) == 1 and next(iter(caps)) and next(iter(caps))[0] == "own" and user_call(c, a[1], next(iter(caps))[1], n) else ("default",) if default(c, a[1]) else None
                d = done[key]
                if d and d[0] == "user":
                    ob("functions-kept", captured(L, e, a[2], d[1], a[3]) == par[1] and given is True, "the %s of the user is not the one called, or called although there is none" % msg)
                else:
                    ob("functions-kept", d == ("default",) and given is False, "the %s of the user is lost, or the default one is wrong" % msg)
            elif a[0] == "param":
                ob("functions-kept", a[1] == par[1] and given is True or a[1] == par[1] and member == S.init, "the %s of the user is mixed up" % msg)
        for member, proc in ((S.make, False), (S.proc, True)):
            a = assigned(p, f, L, e, member)
            what = "processAndPublish" if proc else "publish"
            ob("creator-set", a is not None and a[0] == "lambda", "events of %s cannot be made" % what)
            if a is not None and a[0] == "lambda":
                rows.append((a[1], proc, zero, set_(t, L, e, clone[1]), w))
    made_ = {}
    for q, proc, zero, cl, w in rows:
        if (q.name, proc) not in made_:
            made_[(q.name, proc)] = creator(c, q, S, proc)
        what = "processAndPublish" if proc else "publish"
        r = made_[(q.name, proc)]
        for kind, copied, pool, w2 in r:
            if zero is not True and pool is not True:
                c.ob("pool-used", what, kind is not None, w2, "a publisher with a pool does not take its events from it")
            if zero is not False and pool is not False:
                c.ob("pool-used", what, kind is None, w2, "the pool is used although there is none")
            if copied:
                c.ob("cloner-used", what, cl is False, w2, "the cloner of the user is not used")
        if zero is not True:
            c.ob("exhausted-pool", what, any(k == "failed" for k, _, _, _ in r), w, "an exhausted pool stops the publication")
    publish(c, p, S)
    for f in [f for f in p.fns.values() if re.match(re.escape(POOLPUB) + r"::~", f.sq)]:
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            t, w = L.of(e), where(f, e)
            lds = [z for z in t.ev if z[0] == "LD" and z[1] == "this." + S.pool]
            nul = None
            for z in lds:
                b = isnull(t, z[3])
                nul = b if b is not None else nul
            de = [z for z in t.ev if z[0] == "CALL" and z[2] and any(ptr(simp(z[2][0])) == ptr(simp(y[3])) for y in lds) and (z[1].startswith("vcall#") or "::~" in z[1])]
            c.ob("pool-freed", "destruction", len(de) == (0 if nul is True else 1), w, "the pool is not destroyed with its publisher")


def publish(c, p, S):
    for f in [f for f in p.fns.values() if f.sq in (POOLPUB + "::internalPublish", POOLPUB + "::processAndPublish")]:
        proc = f.sq.endswith("processAndPublish")
        inst = "processAndPublish" if proc else "publish"
        L, ends, m = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
            out = calls(t, r"(::publish|::internalPublish)$")
            if e.kind == "iter":
                ob("published-once", not out, "an event is published in a loop")
            ob("failures-reported", not [z for z in t.ev if z[0] == "CATCH"], "an exception is swallowed: nobody learns that nothing was published")
            if e.kind != "ret":
                continue
            mk = [z for z in t.ev if z[0] == "f.call" and t.name(z[2][1] if len(z[2]) > 1 else z[2][0]).lstrip("&") == (S.proc if proc else S.make)]
            ob("made-once", len(mk) == 1 and (proc or len(mk[0][2]) == 3 and is_arg(mk[0][2][2], A(f, 1))), "not exactly one event is made from the published one")
            if len(mk) != 1:
                continue
            obj = simp(mk[0][2][0])
            pr = [z for z in t.ev if z[0] == "f.call" and z is not mk[0]]
            if proc:
                ob("processed-once", len(pr) == 1 and fn_at(L, e, pr[0][2][0], t.at(pr[0])) == ("arg", A(f, 1)[1]) and len(pr[0][2]) == 2 and pointee(L, e, pr[0][2][1], t.at(pr[0]), obj), "the user's function does not get the new event exactly once")
            else:
                ob("processed-once", not pr, "somebody else gets the event first")
            ob("published-once", len(out) == 1 and is_arg(out[0][2][0], THIS) and same(L, e, out[0][2][1], t.at(out[0]), obj), "not exactly the new event is published, once")
            if len(out) == 1:
                ob("published-once", all(t.at(z) < t.at(out[0]) for z in pr), "the event is published before it is complete")
                # publish also keeps the statistics of the publisher; the caller of internalPublish has already done so
                ob("counted-once", out[0][1].endswith("::publish" if proc else "::internalPublish"), "a published event is counted %s" % ("not at all" if proc else "twice"))


# ------------------------------------------------------------------ event emitter publisher, provider, channels
def only(c, p, q, n=None, dem=None):
    fs = [f for f in p.fns.values() if f.sq == q and (n is None or len(f.args) == n) and (dem is None or re.search(dem, f.dem))]
    c.need(fs, "%s is gone" % q)
    return fs[0]


def param_fn(L, e, v, k, a):
    return fn_at(L, e, v, k) == ("arg", a[1])


@prop("E08", "path-sensitive analysis of the way of an event from the publisher to the emitter and through the channels",
      "All paths of the emitter publisher, its provider and factory, the event forwarder and the middleware channels; any event, name and emitter type.")
def e08(c):
    p = c.program(UNIT, [r".*kpsr::(EventEmitterP|EventEmitterMidd|EventEmitterFact).*"], keep=[r".*ObjectPoolPublisher<.*", r".*kpsr::EventEmitter(Publisher|Subscriber)<.*>::EventEmitter.*", r".*EventEmitterFactory::.*"], libkeep=KEEP)
    PUB, PRO, FAC = "kpsr::EventEmitterPublisher", "kpsr::EventEmitterMiddlewareProvider", "kpsr::EventEmitterFactory"
    m = members(c, p, PUB, {"emitter": r"shared_ptr<", "name": r"(basic_)?string|basic_string<"})
    f = only(c, p, PUB + "::internalPublish")
    L, ends, _ = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        em = calls(t, r"::emitEvent$")
        if e.kind == "iter":
            c.ob("emitted-once", "publish", not em, w, "an event is emitted in a loop")
        c.ob("failures-reported", "publish", not [z for z in t.ev if z[0] == "CATCH"], w, "an exception of a listener is swallowed")
        if e.kind != "ret":
            continue
        c.ob("emitted-once", "publish", len(em) == 1, w, "a published event is not emitted exactly once")
        for z in em[:1]:
            k = t.at(z)
            ok = len(z[2]) == 4
            c.ob("own-emitter", "publish", ok and re.match(re.escape(m["emitter"]) + r"(->|$)", L.desc(e, z[2][0], k)), w, "the event goes to another emitter")
            c.ob("own-name", "publish", ok and textof_key(L, e, z[2][1], k) == m["name"], w, "the event is emitted under another name")
            c.ob("no-queue", "publish", ok and strip(z[2][2]) == ("c", 0), w, "an event that never waited has an enqueuing time")
            c.ob("own-event", "publish", ok and is_param(L, e, z[2][3], k, A(f, 1)), w, "another event is emitted")
    f = only(c, p, PUB + "::EventEmitterPublisher")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        b = calls(t, r"ObjectPoolPublisher::ObjectPoolPublisher$")
        ok = len(b) == 1 and len(b[0][2]) == 8
        c.ob("pool-arguments", "publisher", ok and is_arg(b[0][2][1], A(f, 1)) and textof_key(L, e, b[0][2][2], t.at(b[0])) == AN(f, 2) and equal(t, b[0][2][4], A(f, 4)) and param_fn(L, e, b[0][2][5], t.at(b[0]), A(f, 5)) and param_fn(L, e, b[0][2][6], t.at(b[0]), A(f, 6)), w, "container, name, pool size, initializer and cloner do not all come to the publisher")
        c.ob("own-emitter", "publisher", kept(L, e, m["emitter"], AN(f, 3)), w, "the publisher keeps another emitter")
        c.ob("own-name", "publisher", text_kept(L, e, m["name"], AN(f, 2)), w, "the publisher keeps another name")
    f = only(c, p, PRO + "::EventEmitterMiddlewareProvider")
    L, ends, _ = ways(c, f)
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        mk = calls(t, r"::createEventEmitter$")
        pu, su = calls(t, r"EventEmitterPublisher::EventEmitterPublisher$"), calls(t, r"EventEmitterSubscriber::EventEmitterSubscriber$")
        c.ob("one-emitter", "provider", len(mk) == 1 and equal(t, mk[0][2][1], A(f, 6)), w, "not exactly one emitter of the given type is made")
        c.ob("both-ends", "provider", len(pu) == 1 and len(su) == 1, w, "the provider has not exactly one publisher and one subscriber")
        if len(mk) != 1 or len(pu) != 1 or len(su) != 1:
            continue
        z, y = pu[0], su[0]
        em = simp(mk[0][2][0])
        c.ob("same-emitter", "provider", len(z[2]) == 7 and len(y[2]) == 4 and same(L, e, z[2][3], t.at(z), em) and same(L, e, y[2][2], t.at(y), em), w, "publisher and subscriber do not share the emitter")
        if len(z[2]) == 7 and len(y[2]) == 4:
            c.ob("same-name", "provider", name_is(L, e, z[2][2], t.at(z), AN(f, 2)) and name_is(L, e, y[2][3], t.at(y), AN(f, 2)), w, "publisher and subscriber do not share the name")
            c.ob("same-container", "provider", is_arg(z[2][1], A(f, 1)) and is_arg(y[2][1], A(f, 1)), w, "publisher or subscriber is not known to the container")
            c.ob("pool-arguments", "provider", equal(t, z[2][4], A(f, 3)) and param_fn(L, e, z[2][5], t.at(z), A(f, 4)) and param_fn(L, e, z[2][6], t.at(z), A(f, 5)), w, "pool size, initializer and cloner do not come to the publisher")
    o = {}
    for t in p.types:
        if re.match(re.escape(PRO) + r"<.*>$", t.get("q") or "") and t.get("mem"):
            for x in t["mem"]:
                n = p.types[p.strip(x["ty"])].get("name") or "" if p.strip(x["ty"]) is not None else ""
                for k in ("Publisher", "Subscriber"):
                    if n.startswith("EventEmitter" + k):
                        o[k] = x["off"]
    c.need(len(o) == 2, "publisher or subscriber of the provider is gone")
    for k in o:
        f = only(c, p, PRO + "::get" + k)
        L, ends, _ = ways(c, f)
        for e in ends:
            if e.kind == "ret":
                c.ob("own-ends", "get" + k, ptr(simp(e.val))[:2] == (THIS, o[k]), where(f, e), "another %s is given out" % k.lower())
    factory(c, p, FAC)
    forwarder(c)


def is_param(L, e, v, k, a):
    v2, _ = L.of(e).origin(v, k)
    return is_arg(v, a) or is_arg(v2, a)


def name_is(L, e, v, k, n):
    """text of a parameter, possibly by way of a member or a copy"""
    x = textof_key(L, e, v, k)
    if x == n:
        return True
    t = L.of(e)
    for y in t.ev[:k]:
        if y[0] in ("s.ctor", "s.assign") and len(y[2]) > 1 and t.name(y[2][0]).lstrip("&") == x:
            return textof_key(L, e, y[2][1], t.at(y)) == n
    return False


def kept(L, e, member, arg):
    """is the shared pointer member a copy of the argument at the end?"""
    t = L.of(e)
    last = [z for z in t.ev if z[0] in ("p.ctor", "p.assign", "p.reset", "p.swap") and t.name(z[2][0]).lstrip("&") == member]
    return bool(last) and last[-1][0] in ("p.ctor", "p.assign") and len(last[-1][2]) > 1 and L.desc(e, last[-1][2][1], t.at(last[-1])) == arg


def text_kept(L, e, member, arg):
    t = L.of(e)
    last = [z for z in t.ev if z[0].startswith("s.") and z[0] in ("s.ctor", "s.assign", "s.append", "s.clear", "s.swap") and t.name(z[2][0]).lstrip("&") == member]
    return bool(last) and last[-1][0] in ("s.ctor", "s.assign") and len(last[-1][2]) > 1 and textof_key(L, e, last[-1][2][1], t.at(last[-1])) == arg


def factory(c, p, FAC):
    f = only(c, p, FAC + "::createEventEmitter")
    en = next((t["enum"] for t in p.types if t.get("q") == "kpsr::EventEmitterType" and t.get("enum")), None)
    c.need(en, "types of emitters are gone")
    want = {"UNSAFE_SINGLE": "UnsafeSingleListenerEventEmitter", "UNSAFE_MULTI": "UnsafeMultiListenerEventEmitter", "SAFE": "SafeEventEmitter"}
    c.need(all(k in en for k in want), "types of emitters are gone")
    L, ends, _ = ways(c, f)
    ty = next((("arg", i) for i in range(len(f.args)) if f.argname(i) not in ("this", None, "") and "type" in str(f.argname(i)).lower()), ("arg", len(f.args) - 1))
    seen = set()
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        mk = [z for z in t.ev if z[0] == "CALL" and z[1] in ("std::make_shared", "std::allocate_shared")]
        got = [k for k in want if t.m.decide(t.st, cmpv("eq", ty, ("c", en[k]))) is True]
        no = [k for k in want if t.m.decide(t.st, cmpv("eq", ty, ("c", en[k]))) is False]
        if got:
            seen.add(got[0])
            ok = False
            for z in mk:
                d = (t.fn.insts[z[4]].get("dem") or "").split("make_shared<", 1)[-1]
                r = [y for y in t.ev if y[0] in ("p.ctor", "p.assign") and simp(y[2][0]) == ("arg", 0)]
                ok = d.startswith("kpsr::" + want[got[0]] + "<") and len(mk) == 1 and (ptr(simp(z[2][0]))[0] == ("arg", 0) or bool(r) and len(r[-1][2]) > 1 and same(L, e, r[-1][2][1], t.at(r[-1]), simp(z[2][0])))
            c.ob("type-made", got[0], ok, w, "another emitter is made than the one asked for")
        else:
            c.ob("type-made", "unknown type", set(no) == set(want), w, "it depends on something else which emitter is made")
    for k in want:
        c.ob("type-made", k, k in seen, f.here(), "no emitter of this type can be made")


def forwarder(c):
    p = c.program(CHAN, [r".*kpsr::(EventForw|ToMiddl|FromMiddl).*"], libkeep=KEEP)
    FW, TO, FROM = "kpsr::EventForwarder", "kpsr::ToMiddlewareChannel", "kpsr::FromMiddlewareChannel"
    f = only(c, p, FW + "::onMessageReceived")
    ct = only(c, p, FW + "::EventForwarder")
    L, ends, _ = ways(c, ct)
    mem = None
    for e in ends:
        t = L.of(e)
        s = [z for z in t.ev if z[0] == "STORE" and is_arg(z[2][1], A(ct, 1)) and str(z[1]).startswith("this.")]
        if e.kind == "ret":
            c.ob("publisher-kept", "forwarder", len(s) == 1, where(ct, e), "the forwarder forgets its publisher")
            mem = s[0][1] if s else mem
    L, ends, _ = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        pb = calls(t, r"::(publish|internalPublish|processAndPublish)$")
        if e.kind == "iter":
            c.ob("forwarded-once", "forwarder", not pb, w, "an event is forwarded in a loop")
        if e.kind == "ret":
            ok = len(pb) == 1 and pb[0][1].endswith("::publish") and is_arg(pb[0][2][1], A(f, 1)) and mem is not None and L.desc(e, pb[0][2][0], t.at(pb[0])).startswith(mem)
            c.ob("forwarded-once", "forwarder", ok, w, "an event is not published exactly once by the publisher of the forwarder")
    channel_to(c, p, TO)
    channel_from(c, p, FROM)


def mapper_bound(c, p, cls, name, other):
    """constructor of a channel: the transformation is the mapper's own function, on the channel's own mapper"""
    f = only(c, p, cls + "::" + cls.rsplit("::", 1)[1])
    L, ends, _ = ways(c, f)
    tf = members(c, p, cls, {"f": r"function<void \(const .*,.*\)>$", "m": r"Mapper<"})
    mo = next(x["off"] for t in p.types if re.match(re.escape(cls) + r"<.*>$", t.get("q") or "") and t.get("mem") for x in t["mem"] if "this." + x["name"] == tf["m"])
    inst = cls.rsplit("::", 1)[1]
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        z = [z for z in t.ev if z[0] in ("f.ctor", "f.assign") and t.name(z[2][0]).lstrip("&") == tf["f"]]
        ok = False
        if z and len(z[-1][2]) > 1:
            k = t.at(z[-1])
            b = ptr(simp(z[-1][2][1]))
            st = {ptr(y[2][0])[1] - b[1]: y[2][1] for y in t.ev[:k] if y[0] == "STORE" and ptr(y[2][0])[0] == b[0]}
            g = re.search(r"'?d'?: '([^'(]+)\(", str(st.get(0)))
            if g:
                ok = g.group(1).endswith("::" + name) and ptr(simp(st.get(16, ("c", 0))))[:2] == (THIS, mo)
            else:
                q = lambda_of(p, f, t, z[-1])
                ok = q is not None and lambda_maps(c, q, name, mo)
        c.ob("mapper-bound", inst, ok, w, "the channel does not transform with %s of its own mapper" % name)
    return f, L, ends, tf


def lambda_maps(c, q, name, mo):
    L, ends, _ = ways(c, q)
    n = 0
    for e in ends:
        if e.kind == "iter":
            return False
        if e.kind != "ret":
            continue
        t = L.of(e)
        cs = calls(t, "::%s$" % name)
        if len(cs) != 1 or not is_arg(cs[0][2][1], A(q, 1)) or not is_arg(cs[0][2][2], A(q, 2)):
            return False
        n += 1
    return n > 0


def channel_to(c, p, cls):
    f, L, ends, tf = mapper_bound(c, p, cls, "toMiddleware", "Message")
    inst = "ToMiddlewareChannel"
    mem = members(c, p, cls, {"pub": r"unique_ptr<|shared_ptr<"})["pub"]
    for e in ends:
        if e.kind == "ret":
            t = L.of(e)
            k = [z for z in t.ev if z[0] == "STORE" and z[1].startswith(mem) or z[0] in ("u.ctor", "u.assign", "p.ctor") and z[2] and t.name(z[2][0]).lstrip("&") == mem]
            c.ob("publisher-kept", inst, bool(k) and isnull(t, k[-1][2][1]) is not True and any("middlewarePublisher" in q for q in (L.desc(e, k[-1][2][1], t.at(k[-1])), str(t.name(k[-1][2][1])))) or bool(k) and from_arg(t, k[-1][2][1], A(f, 3)), where(f, e), "the channel forgets its publisher")
    deleg = []
    for f in [f for f in p.fns.values() if f.sq == cls + "::internalPublish"]:
        L, ends, _ = ways(c, f)
        for e in ends:
            t, w = L.of(e), where(f, e)
            out = [z for z in t.mine if z[0] == "CALL" and z[2] and L.desc(e, z[2][0], t.at(z)).startswith(mem) and "::~" not in z[1]]
            if e.kind == "iter":
                c.ob("published-once", inst, not out, w, "an event is published in a loop")
            c.ob("failures-reported", inst, not [z for z in t.ev if z[0] == "CATCH"], w, "an exception is swallowed: nobody learns that nothing was published")
            if e.kind != "ret":
                continue
            own = [z for z in t.ev if z[0] == "CALL" and z[1].endswith("::internalPublish")]
            if own and not out:
                # the other form of the event is published instead
                c.ob("published-once", inst, len(own) == 1 and is_arg(own[0][2][0], THIS) and (is_param(L, e, own[0][2][1], t.at(own[0]), A(f, 1)) or from_arg(t, own[0][2][1], A(f, 1))), w, "an event is not published exactly once through the middleware")
                deleg.append("shared_ptr" in f.dem.split("internalPublish", 1)[1])
                continue
            c.ob("published-once", inst, len(out) == 1 and vname(p, t, out[0], "kpsr::Publisher<unit::Message>".split("<")[0]) == "processAndPublish", w, "an event is not published exactly once through the middleware")
            if len(out) == 1 and len(out[0][2]) > 1:
                q = transformer(p, f, L, e, out[0])
                c.ob("transformed", inst, q is not None, w, "the message is not made from the event")
                if q is not None:
                    transforms(c, q[0], tf["f"], inst, L, e, q[1], A(f, 1), "shared_ptr" in f.dem.split("internalPublish", 1)[1])
    c.ob("published-once", inst, len(set(deleg)) < 2, "", "the two forms of publishing only call each other")
    f = only(c, p, cls + "::processAndPublish")
    L, ends, _ = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        if e.kind != "ret":
            continue
        mk = [z for z in t.ev if z[0] == "CALL" and z[1] in ("std::make_shared", "std::allocate_shared")]
        fc = [z for z in t.ev if z[0] == "f.call"]
        out = calls(t, r"::(internalPublish|publish)$") or [z for z in t.ev if z[0] == "CALL" and z[2] and L.desc(e, z[2][0], t.at(z)).startswith(mem)]
        c.ob("made-once", inst, len(mk) == 1 and len(mk[0][2]) == 1, w, "not exactly one new event is made")
        if len(mk) == 1:
            obj = simp(mk[0][2][0])
            c.ob("processed-once", inst, len(fc) == 1 and fn_at(L, e, fc[0][2][0], t.at(fc[0])) == ("arg", A(f, 1)[1]) and pointee(L, e, fc[0][2][1], t.at(fc[0]), obj), w, "the user's function does not get the new event exactly once")
            c.ob("published-once", inst, len(out) == 1 and (not fc or t.at(fc[0]) < t.at(out[0])) and (not out[0][1].endswith("ublish") or same(L, e, out[0][2][1], t.at(out[0]), obj)), w, "the processed event is not published exactly once")


def from_arg(t, v, a):
    v = strip(v)
    return v[0] == "ld" and ptr(v[1])[0] == a or v == a


def transformer(p, f, L, e, z):
    """(body, closure base) of the function object handed to processAndPublish"""
    t = L.of(e)
    k = t.at(z)
    b = ptr(simp(z[2][1]))
    o, j = t.origin(z[2][1], k)
    for y in reversed(t.ev[:k]):
        if y[0] == "f.ctor" and len(y[2]) > 1:
            q = lambda_of(p, f, t, y)
            if q is not None:
                return q, ptr(simp(y[2][1]))[0]
    return None


def transforms(c, q, member, inst, L0, e0, base, arg, shared):
    """the closure: exactly one transformation of the captured event into its argument"""
    t0 = L0.of(e0)
    cap = {ptr(y[2][0])[1]: y[2][1] for y in t0.ev if y[0] == "STORE" and ptr(y[2][0])[0] == base}
    for y in t0.ev:
        if y[0] == "p.ctor" and ptr(simp(y[2][0]))[0] == base and len(y[2]) > 1:
            cap[ptr(simp(y[2][0]))[1]] = y[2][1]
    L, ends, _ = ways(c, q)
    n = 0
    for e in ends:
        t, w = L.of(e), where(q, e)
        fc = [z for z in t.mine if z[0] == "f.call"]
        if e.kind == "iter":
            c.ob("transformed", inst, not fc, w, "an event is transformed in a loop")
        if e.kind != "ret":
            continue
        n += 1
        ok = len(fc) == 1 and len(fc[0][2]) == 3 and t.name(fc[0][2][0]).lstrip("&").endswith("->" + member[5:]) and is_arg(fc[0][2][2], A(q, 1))
        if ok:
            v = strip(fc[0][2][1])
            b, off, _ = ptr(v)
            # the captured reference, and for a shared pointer what it points to
            depth = 0
            while b[0] == "ld" and depth < 4:
                depth += 1
                last = ptr(b[1])
                if last[0] == THIS:
                    break
                b = last[0]
            ok = depth > 0 and b[0] == "ld" and ptr(b[1])[0] == THIS and off == 0 and any(is_arg(cap[o], arg) or ptr(simp(cap[o]))[0] == arg for o in cap if o == ptr(("p", b[1], b[2], b[3]) if len(b) > 3 else b[1])[1])
        c.ob("transformed", inst, ok, w, "the message is not made, once, from the published event")
    c.ob("transformed", inst, n > 0, q.here(), "the message is never made")


def channel_from(c, p, cls):
    f, L, ends, tf = mapper_bound(c, p, cls, "fromMiddleware", "Event")
    inst = "FromMiddlewareChannel"
    mem = members(c, p, cls, {"fw": r"EventTransformForwarder<"})["fw"]
    for e in ends:
        if e.kind == "ret":
            t = L.of(e)
            k = calls(t, r"EventTransformForwarder::EventTransformForwarder$")
            ok = len(k) == 1 and L.desc(e, k[0][2][0], t.at(k[0])).startswith(mem) and is_arg(k[0][2][2], A(f, 1))
            ok = ok and (L.desc(e, k[0][2][1], t.at(k[0])) == tf["f"] or [y for y in t.ev[:t.at(k[0])] if y[0] == "f.ctor" and t.name(y[2][0]).lstrip("&") == tf["f"]] and ptr(simp(k[0][2][1]))[0] == THIS)
            c.ob("forwarder-made", inst, ok, where(f, e), "the channel does not forward the transformed messages to its publisher")
    f = only(c, p, cls + "::onMiddlewareMessage")
    L, ends, _ = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        k = calls(t, r"::onEventReceived$")
        if e.kind == "iter":
            c.ob("forwarded-once", inst, not k, w, "a message is forwarded in a loop")
        c.ob("failures-reported", inst, not [z for z in t.ev if z[0] == "CATCH"], w, "a failure is swallowed")
        if e.kind == "ret":
            c.ob("forwarded-once", inst, len(k) == 1 and is_arg(k[0][2][1], A(f, 1)) and L.desc(e, k[0][2][0], t.at(k[0])).startswith(mem), w, "a message is not forwarded exactly once")
