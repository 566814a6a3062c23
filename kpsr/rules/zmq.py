"""The ZMQ middleware: framing of messages, channels per topic, the pollers' thread, and the shared environment."""
import os
import re

from ..build import REPO, VERIF
from ..cont import KEEP, Loops, changes, found, show
from ..core import prop
from ..sem import Ev, cmpv, gev, ptr, simp, truthy, walk
from ..sym import mkp
from .emitters import A, AN, equal, is_arg, isnull, strip, textof_key
from .fsm import where
from .highperf import STRING, entry_of, mems, pointed
from .poller import FLAGS, POL, begin_life, end_life, flag, flow, gone_life, last_store
from .props import bare
from .publishers import calls, fn_at, lambda_of, only, pev, text_kept
from .services import THIS, bound

UNIT = os.path.join(VERIF, "units", "zmq.cpp")
Z = "kpsr::zmq_mdlw::"
SOCK = r"&?(zmq::)?socket_t"
QUIET = re.compile(r"^std::(__cxx11::|__shared|shared_ptr|unique_ptr|_|function::function|function::operator=|allocat)|^llvm|::~|spdlog|fmt|^zmq::(const_buffer::|message_t::(data|size|more|~))|^zmq::message_t::message_t\(\)")
POLLERS = {"Binary": "BinaryZMQPoller", "Json": "JsonZMQPoller", "VoidCaster": "VoidCasterZMQPoller"}
PAYLOAD = {"Binary": r"basic_streambuf", "Json": r"basic_string<|__cxx11::string", "VoidCaster": r"vector<unsigned char"}


def zev():
    base = pev()

    def ev(m, x, st, vals, res):
        if x.op in ("call", "invoke") and re.match(r"(llvm\.)?mem(cpy|move)", x.callee or "") and len(vals) > 2 and vals[2][0] != "c":
            return Ev(("CALL", "memcpy", tuple(simp(v) for v in vals[:3]), None, x.i, None))
        return base(m, x, st, vals, res)
    ev.again = base.again
    return ev


def ways(c, f, **kw):
    c.analysed(f)
    ends, m = walk(f, zev(), throws=lambda x: not QUIET.search(x.callee or ""), sticky=changes(None), **kw)
    ends = [e for e in ends if e.kind != "stop" and not (e.x is not None and e.x.op == "unreachable")]
    c.count("paths", len(ends))
    return Loops(ends, f), ends, m


def event_of(t, v, k=None):
    """the event that a value is the result of"""
    v = bare(v)
    return next((y for y in reversed(t.ev[:k]) if y[3] is not None and isinstance(y[3], tuple) and simp(y[3]) == v), None)


def from_member(L, e, v, k, off, owner=None):
    """is it what a reference or pointer member refers to?"""
    v = strip(v)
    if v[0] != "ld":
        return False
    b = ptr(simp(mkp(v[1], v[2], v[3])))
    if owner is not None:
        return b[1] == off and from_member(L, e, b[0], k, owner)
    return b[:2] == (THIS, off)


def dead(t, v, a, b):
    """is the local object destroyed between the two positions?"""
    return any(y[0] == "s.dtor" or y[0] == "CALL" and "::~" in y[1] or y[0].endswith("dtor") for y in t.ev[a:b] if y[2] and ptr(simp(y[2][0])) == ptr(simp(v)))


def bytes_of(L, e, dv, sv, k):
    """the object whose bytes a (data, size) pair gives: ("text", what) or ("data", object) or ("message", object), None if they do not belong together"""
    t = L.of(e)
    y, z = event_of(t, dv, k), event_of(t, sv, k)
    if z is None and y is not None and y[0] in ("s.data", "s.c_str"):
        return None
    if y is None or z is None:
        return None
    a, b = t.at(y), t.at(z)
    if y[0] in ("s.data", "s.c_str") and z[0] in ("s.size", "s.length") or y[0] in ("s.begin", "s.cbegin") and z[0] in ("s.end", "s.cend") and ptr(simp(y[2][0])) == ptr(simp(z[2][0])):
        if dead(t, y[2][0], a, k) or any(t.writes(q, y[2][0]) for q in t.ev[min(a, b) + 1:k] if q[0] != "LOOP"):
            return None
        p, q = L.text(e, y[2][0], a), L.text(e, z[2][0], b)
        return ("text", p) if p == q and ("?",) not in p else None
    if y[0] in ("data", "at", "begin", "front") and z[0] == "size":
        if y[0] == "at" and simp(y[2][1]) != ("c", 0):
            return None
        p, q = t.name(y[2][0]), t.name(z[2][0])
        return ("data", p.lstrip("&")) if p == q and not dead(t, y[2][0], a, k) else None
    if y[1] == "zmq::message_t::data" and z[1] == "zmq::message_t::size":
        return ("message", ptr(simp(y[2][0]))) if ptr(simp(y[2][0])) == ptr(simp(z[2][0])) else None
    return None


def sent(L, e, z):
    """(bytes, is more to come?) of a send operation"""
    t = L.of(e)
    k = t.at(z)
    fl = bare(z[2][-1])
    more = bool(fl[1] & 2) if fl[0] == "c" else None
    if len(z[2]) == 4:
        b = strip(z[2][1])
        o = ptr(simp(mkp(b[1], b[2], b[3])))[0] if b[0] == "ld" else None
    else:
        o = ptr(simp(z[2][1]))[0]
    mk = [y for y in t.ev[:k] if y[0] == "CALL" and re.search(r"^zmq::(const_buffer::const_buffer|message_t::message_t)$", y[1]) and ptr(simp(y[2][0]))[0] == o]
    if not mk or len(mk[-1][2]) != 3:
        return None, more
    return bytes_of(L, e, mk[-1][2][1], mk[-1][2][2], t.at(mk[-1])), more


def two_frames(c, f, L, e, inst, off, topic, payload, only_on=("ret",)):
    """one message: the topic with more to come, then the whole payload"""
    t, w = L.of(e), where(f, e)
    sn = calls(t, r"^zmq::socket_t::send$")
    ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
    if e.kind == "iter":
        ob("one-message", not sn, "frames are sent in a loop")
        return False
    ob("one-message", len(sn) <= 2, "an event is more than one message of two frames")
    for n, z in enumerate(sn[:2]):
        k = t.at(z)
        ob("own-socket", from_member(L, e, z[2][0], k, off), "a frame goes to another socket")
        b, more = sent(L, e, z)
        if n == 0:
            ob("topic-first", b == ("text", (("ld", "this." + topic),)), "the first frame is not the whole topic")
            ob("frames-together", more is True, "the topic is not marked as the first part of a message")
        else:
            ob("payload-second", b is not None and payload(t, L, e, b, k), "the second frame is not the whole payload")
            ob("frames-together", more is False, "the message does not end with the payload")
    if e.kind in only_on:
        ob("one-message", len(sn) == 2, "an event is not one message of two frames")
        return True
    return False


def member_written(t, off):
    return [z for z in t.ev if z[0] == "STORE" and ptr(simp(z[2][0]))[:2] == (THIS, off)]


# ------------------------------------------------------------------ W01
@prop("W01", "path-sensitive analysis of the channels to ZMQ over declarations of its sockets and messages",
      "All paths of the three kinds of channels and of their provider, for any topic, pool size and payload; a send may throw.")
def w01(c):
    p = c.program(UNIT, [r"^kpsr::zmq_mdlw::(Binary|Json|VoidCaster)ToZMQChannel::.*"], keep=[r"^kpsr::ObjectPoolPublisher<.*"], libkeep=KEEP)
    for kind in POLLERS:
        cls = Z + kind + "ToZMQChannel"
        M = mems(c, p, cls, {"socket": SOCK, "topic": STRING})
        f = only(c, p, cls + "::internalPublish")
        L, ends, _ = ways(c, f)
        n = 0
        for e in ends:
            n += two_frames(c, f, L, e, kind, M["socket"][1], M["topic"][0], lambda t, L, e, b, k: of_event(t, L, e, b, k, f, kind))
        c.ob("one-message", kind, n > 0, f.here(), "nothing is ever sent")
        f = only(c, p, cls + "::" + kind + "ToZMQChannel")
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            t, w = L.of(e), where(f, e)
            st = member_written(t, M["socket"][1])
            c.ob("own-socket", kind, bool(st) and is_arg(strip(st[-1][2][1]), A(f, 5)), w, "another socket is kept than the one given")
            c.ob("topic-kept", kind, text_kept(L, e, "this." + M["topic"][0], AN(f, 2)) or copied_text(L, e, M["topic"][1], AN(f, 2)), w, "another topic is kept than the one given")
            ba = calls(t, r"^kpsr::ObjectPoolPublisher::ObjectPoolPublisher$")
            ok = len(ba) == 1 and len(ba[0][2]) >= 7
            c.ob("pool-made", kind, ok, w, "the pool of payloads is not made")
            if not ok:
                continue
            z, k = ba[0], t.at(ba[0])
            c.ob("pool-named", kind, textof_key(L, e, z[2][2], k) == AN(f, 2), w, "the channel is not known by its topic")
            c.ob("container-kept", kind, is_arg(strip(z[2][1]), A(f, 1)), w, "the channel is not in the given container")
            sz = simp(z[2][4])
            small = m.decide(e.st, cmpv("slt", sz, ("c", 1)))
            c.ob("pool-size", kind, asked_size(t, L, e, sz, A(f, 3)) or small is False and bare(sz)[0] == "c" and m.decide(e.st, cmpv("slt", ("arg", A(f, 3)[1]), ("c", 1))) is True or sz == ("c", 1), w, "the pool is not as large as asked for")
            if kind == "Binary":
                c.ob("buffers-made", kind, never_zero(t, L, e, m, sz, A(f, 3)), w, "without a pool an event has no buffer to go into")
                c.ob("buffers-made", kind, fn_at(L, e, z[2][5], k) == ("arg", A(f, 4)[1]) or via(L, e, z[2][5], k, A(f, 4)), w, "the function that makes buffers is not passed on")
                c.ob("buffers-deleted", kind, len(z[2]) > 7 and (fn_at(L, e, z[2][7], k) == ("arg", A(f, 6)[1]) or via(L, e, z[2][7], k, A(f, 6))), w, "the function that deletes buffers is not passed on")
            else:
                c.ob("buffers-made", kind, fn_at(L, e, z[2][5], k) == ("arg", A(f, 4)[1]) or via(L, e, z[2][5], k, A(f, 4)), w, "the initialiser is not passed on")
    to_provider(c)


def via(L, e, v, k, a):
    """a function object by way of local copies"""
    o, _ = L.of(e).origin(v, k)
    return is_arg(o, a)


def copied_text(L, e, off, arg):
    t = L.of(e)
    for z in reversed(t.ev):
        if z[0] in ("s.ctor", "s.assign") and ptr(simp(z[2][0]))[:2] == (THIS, off):
            return len(z[2]) > 1 and textof_key(L, e, z[2][1], t.at(z)) == arg
    return False


def asked_size(t, L, e, v, a):
    """the parameter, or the greater of it and a constant"""
    v = bare(v)
    if is_arg(v, a):
        return True
    if v[:2] == ("op", "smax"):
        return any(is_arg(bare(x), a) for x in v[3:]) and any(bare(x)[0] == "c" for x in v[3:])
    y = event_of(t, v)
    if v[0] == "ld" or y is not None and y[0] == "CALL" and re.search(r"max$", y[1]):
        # a reference to one of the two, as std::max gives it
        b = ptr(simp(mkp(v[1], v[2], v[3]))) if v[0] == "ld" else None
        st = [z for z in t.ev if z[0] == "STORE" and b and ptr(simp(z[2][0])) == b]
        return bool(st) and (is_arg(bare(st[-1][2][1]), a) or bare(st[-1][2][1])[0] == "c")
    return False


def never_zero(t, L, e, m, v, a):
    if m.decide(e.st, cmpv("slt", simp(v), ("c", 1))) is False:
        return True
    b = bare(v)
    if b[:2] == ("op", "smax"):
        return any(x[0] == "c" and x[1] >= 1 for x in b[3:])
    return b[0] == "c" and b[1] >= 1


def of_event(t, L, e, b, k, f, kind):
    """are those the bytes of the published event?"""
    n = AN(f, 1)
    held = (n, n + "->", n + "._M_ptr", "%s->_M_ptr" % n)
    if kind == "Binary":
        if b[0] != "text" or len(b[1]) != 1 or b[1][0][:2] != ("ret", "std::__cxx11::basic_stringbuf::str"):
            return False
        for y in reversed(t.ev[:k]):
            if y[0] == "CALL" and y[1] == "std::__cxx11::basic_stringbuf::str" and len(y[2]) == 2:
                v = bare(y[2][1])
                if v in (("c", 0), ("null",)):
                    return True
                q = event_of(t, v, k)
                if q is not None and q[1] == "__dynamic_cast":
                    v = bare(q[2][0])
                return (L.desc(e, v, k) or "").split("->")[0].split(".")[0] in (n,)
        return False
    if b[0] == "text":
        return b[1] in tuple((("ld", h),) for h in held)
    return b[0] == "data" and (b[1] in held or b[1].split("->")[0].split(".")[0] == n)


def to_provider(c):
    PRV = Z + "ToZMQMiddlewareProvider"
    p = c.program(UNIT, [r".*kpsr::zmq_mdlw::ToZMQMiddlewareProvider::.*"], keep=[r"^kpsr::zmq_mdlw::[A-Za-z]+ToZMQChannel::.*", r"^kpsr::ToMiddlewareChannel<.*"], libkeep=KEEP)
    M = mems(c, p, PRV, {"container": r".*Container\b", "socket": SOCK})
    used = {}
    for kind in POLLERS:
        f = only(c, p, PRV + "::get%sToMiddlewareChannel" % kind)
        L, ends, _ = ways(c, f)
        made = 0
        for e in ends:
            if e.kind == "iter":
                c.ob("one-channel", kind, False, where(f, e), "channels are made in a loop")
            if e.kind != "ret":
                continue
            t, w = L.of(e), where(f, e)
            key = (("ld", AN(f, 1)),)
            lk = {L.cname(e, y) for y in t.ev if y[0] in ("find", "count", "mapat", "insert", "mapget")}
            c.ob("one-map", kind, len(lk) == 1, w, "the channels of one kind are not in one map")
            if len(lk) != 1:
                continue
            mp = next(iter(lk))
            used.setdefault(kind, set()).add(mp)
            has = found(L, e, mp, key)
            c.ob("presence-known", kind, has is not None, w, "whether the topic has a channel is not asked")
            mk = [z for z in t.ev if z[0] == "CALL" and re.search(r"zmq_mdlw::\w+ToZMQChannel::\w+ToZMQChannel$", z[1])]
            src = origin_entry(L, e, e.val)
            if has:
                c.ob("one-channel", kind, not mk and not [y for y in t.ev if y[0] in ("erase", "clear", "p.assign") and ("{" in (L.desc(e, y[2][0], t.at(y)) or "") or L.cname(e, y) == mp)], w, "a topic that has a channel gets another one")
                c.ob("same-channel", kind, src == "%s{%s}" % (mp, show(key)), w, "another channel is given out than the topic's")
            elif has is False:
                made += 1
                c.ob("one-channel", kind, len(mk) == 1, w, "not exactly one channel is made")
                if len(mk) != 1:
                    continue
                z, k = mk[0], t.at(mk[0])
                c.ob("right-kind", kind, z[1].endswith("::%sToZMQChannel" % kind), w, "the channel is of another kind")
                c.ob("channel-wired", kind, from_member(L, e, z[2][1], k, M["container"][1]) and textof_key(L, e, z[2][2], k) == AN(f, 1) and is_arg(strip(z[2][3]), A(f, 2)) and from_member(L, e, z[2][5], k, M["socket"][1]), w, "the channel is not made for the topic, pool size, container and socket")
                if kind == "Binary":
                    buffers(c, p, f, L, e, z, k, w)
                else:
                    n = event_before(t, z[2][4], k)
                    c.ob("buffers-made", kind, isnull(t, z[2][4]) is True or n is not None and len(n[2]) > 1 and isnull(t, n[2][1]) is True or n is not None and len(n[2]) == 1, w, "payloads are changed before they are written")
                sh = [y for y in t.ev if y[0] == "CALL" and (y[1] in ("std::make_shared", "std::allocate_shared") or y[1] == "kpsr::ToMiddlewareChannel::ToMiddlewareChannel")]
                c.ob("mapped", kind, len(sh) == 1, w, "not one publisher of events is made for the channel")
                if len(sh) == 1:
                    y, j = sh[0], t.at(sh[0])
                    d = t.fn.insts[y[4]].get("dem") or ""
                    nm = L.text(e, y[2][2], j)
                    c.ob("mapped", kind, from_member(L, e, deref(L, e, y[2][1], j), j, M["container"][1]) and nm == key + (("lit", "_zmq"),), w, "the publisher of events does not have the provider's container or the topic's name")
                    c.ob("mapped", kind, re.search(r"ToMiddlewareChannel<unit::Event, ", d) is not None and re.search(PAYLOAD[kind], d.split("ToMiddlewareChannel<", 1)[-1]) is not None, w, "events are mapped to something else than the channel's payload")
                    c.ob("mapped", kind, holds(L, e, y[2][3], j, z[2][0]), w, "the publisher of events does not publish to the channel")
                    ent = [q for q in t.ev if q[0] in ("p.assign", "insert", "assign-key", "p.ctor") and len(q[2]) > 1 and (L.desc(e, q[2][0], t.at(q)) == "%s{%s}" % (mp, show(key)) or q[0] == "insert" and L.cname(e, q) == mp)]
                    ok = len(ent) == 1 and comes_from(L, e, ent[0], y[2][0])
                    if ok and ent[0][0] == "p.assign":
                        ma = [q for q in t.ev if q[0] == "mapat" and L.cname(e, q) == mp]
                        ok = bool(ma) and L.text(e, ma[-1][2][1], t.at(ma[-1])) == key
                    c.ob("kept", kind, ok, w, "the new channel is not kept under its topic: the pointer that was given out dangles")
                    v = pointed(L, e, e.val)
                    c.ob("same-channel", kind, v is not None and ptr(simp(v[0])) == ptr(simp(y[2][0])) or held_by(L, e, e.val, y[2][0]) or v is not None and entry_of(L, e, v[0], v[1], mp, key), w, "another channel is given out than the new one")
        c.ob("one-channel", kind, made > 0, f.here(), "no channel is ever made")
    for kind, s in used.items():
        c.ob("one-map", kind, len(s) == 1 and not any(s & o for q, o in used.items() if q != kind), "", "channels of different kinds share a map: %s" % sorted(s))
    f = only(c, p, PRV + "::ToZMQMiddlewareProvider") if any(g.sq == PRV + "::ToZMQMiddlewareProvider" for g in p.fns.values()) else None
    if f:
        L, ends, _ = ways(c, f)
        for e in ends:
            if e.kind == "ret":
                t = L.of(e)
                for k, n in (("container", 1), ("socket", 2)):
                    st = member_written(t, M[k][1])
                    c.ob("provider-wired", k, bool(st) and is_arg(strip(st[-1][2][1]), A(f, n)), where(f, e), "another %s is kept than the one given" % k)


def deref(L, e, v, k):
    """a value, or what is in the place whose address it is"""
    b = ptr(simp(v))
    if b[0] == THIS:
        return ("ld", b[0], b[1], b[2])
    if b[0][0] == "al":
        for y in reversed(L.of(e).ev[:k]):
            if y[0] == "STORE" and ptr(simp(y[2][0])) == b:
                return y[2][1]
    return v


def event_before(t, v, k):
    """the construction of a local function object"""
    return next((y for y in reversed(t.ev[:k]) if y[0] in ("f.ctor", "f.assign") and ptr(simp(y[2][0])) == ptr(simp(v))), None)


def holds(L, e, v, k, obj):
    """does the (unique) pointer hold the object?"""
    t = L.of(e)
    v = simp(v)
    for _ in range(4):
        if ptr(v) == ptr(simp(obj)):
            return True
        for y in reversed(t.ev[:k]):
            if y[0] == "STORE" and ptr(simp(y[2][0])) == ptr(v):
                return ptr(simp(y[2][1])) == ptr(simp(obj))
            if y[2] and len(y[2]) > 1 and ptr(simp(y[2][0])) == ptr(v) and y[0] == "CALL" and "unique_ptr" in y[1]:
                v, k = simp(y[2][1]), t.at(y)
                break
        else:
            return False
    return False


def origin_entry(L, e, v):
    d = L.desc(e, v) or ""
    q = pointed(L, e, v)
    if q is not None:
        d2 = L.desc(e, q[0], q[1]) or ""
        if "{" in d2:
            return re.sub(r"(->|\.second)$", "", d2)
    return re.sub(r"(->|\.second)$", "", d)


def comes_from(L, e, q, obj):
    """is the second operand of the event a copy of the shared pointer?"""
    t = L.of(e)
    k = t.at(q)
    for a in q[2][1:]:
        v = simp(a)
        for _ in range(6):
            if ptr(v) == ptr(simp(obj)):
                return True
            o, j = t.origin(v, k)
            if ptr(o) == ptr(simp(obj)):
                return True
            y = next((y for y in reversed(t.ev[:j]) if y[0] == "CALL" and re.search(r"std::(static|dynamic|const)_pointer_cast$|std::make_pair$", y[1]) and ptr(simp(y[2][0])) == ptr(simp(o))), None)
            if y is None:
                break
            v, k = simp(y[2][-1]), t.at(y)
    return False


def held_by(L, e, v, obj):
    """was that plain pointer read out of (a copy of) the shared pointer?"""
    t = L.of(e)
    v = strip(v)
    if v[0] != "ld":
        return False
    b = simp(mkp(v[1], v[2], v[3]))
    o, _ = t.origin(b)
    return ptr(o) == ptr(simp(obj)) or ptr(b) == ptr(simp(obj))


def buffers(c, p, f, L, e, z, k, w):
    """buffers of the binary channel are made when missing, emptied for every event, and deleted"""
    t = L.of(e)
    for n, rule in ((4, "buffers-made"), (6, "buffers-deleted")):
        v, j = z[2][n], k
        q = None
        for _ in range(4):
            y = event_before(t, v, j)
            if y is None:
                break
            q = lambda_of(p, f, t, y)
            if q is not None or len(y[2]) < 2:
                break
            v, j = y[2][1], t.at(y)
        c.ob(rule, "Binary", q is not None, w, "the function for the buffers was not found")
        if q is None:
            continue
        G, ends, m = ways(c, q)
        a = A(q, 1)
        for x in ends:
            if x.kind == "iter":
                c.ob(rule, "Binary", False, where(q, x), "a buffer is handled in a loop")
            if x.kind != "ret":
                continue
            s, wq = G.of(x), where(q, x)
            ld = [y for y in s.ev if y[0] == "LD" and is_arg(simp(y[2][0]), a)]
            none = next((isnull(s, y[3]) for y in ld if isnull(s, y[3]) is not None), None)
            st = [y for y in s.ev if y[0] == "STORE" and is_arg(simp(y[2][0]), a)]
            dl = [y for y in s.ev if y[0] == "CALL" and (y[1].startswith("vcall#1(") or y[1] == "operator delete")]
            if n == 4:
                new = [y for y in s.ev if y[0] == "CALL" and re.search(r"basic_stringbuf::basic_stringbuf$", y[1])]
                if none is not False:
                    c.ob(rule, "Binary", len(new) == 1 and len(st) == 1 and ptr(simp(st[0][2][1])) == ptr(simp(new[0][2][0])), wq, "a missing buffer is not made")
                else:
                    c.ob(rule, "Binary", not st or bool(dl), wq, "a buffer is replaced without being deleted")
                cl = [y for y in s.ev if y[0] == "CALL" and re.search(r"basic_stringbuf::str$", y[1]) and len(y[2]) == 2]
                ok = bool(cl) and G.text(x, cl[-1][2][1], s.at(cl[-1])) == () and buffer_at(G, x, cl[-1], a, st)
                c.ob("buffers-emptied", "Binary", ok or none is not False and len(new) == 1 and not cl or bool(st), wq, "what an earlier event left in the buffer stays in it")
            else:
                c.ob(rule, "Binary", none is True or len(dl) == 1 and not st or len(dl) == 1 and all(isnull(s, y[2][1]) for y in st), wq, "a buffer is not deleted with the pool")


def buffer_at(G, x, y, a, st):
    """is the buffer the one the parameter has at that point?"""
    s = G.of(x)
    v = strip(y[2][0])
    if st:
        return ptr(simp(v)) == ptr(simp(st[-1][2][1]))
    return any(q[0] == "LD" and is_arg(simp(q[2][0]), a) and (simp(q[3]) == v or ptr(simp(v))[0] == simp(q[3])) for q in s.ev)


# ------------------------------------------------------------------ W02
def turn(t):
    """the events since the last loop was left or entered"""
    k = max([n for n, z in enumerate(t.ev) if z[0] == "LOOP"] + [-1])
    mine = t.mine
    n = next((i for i, z in enumerate(t.ev) if mine and z is mine[0]), 0)
    return t.ev[max(k + 1, n):]


def store_at(t, base, off, k):
    """the last value stored at the offset of a local object before the position"""
    b, o, _ = ptr(simp(base))
    for z in reversed(t.ev[:k]):
        if z[0] == "STORE" and ptr(simp(z[2][0]))[0] == b and ptr(simp(z[2][0]))[1] == o + off:
            return z[2][1]
    return None


def message_bytes(t, dv, sv, k):
    """the message whose whole contents a (data, size) pair gives"""
    y, z = event_of(t, dv, k), event_of(t, sv, k)
    if y is None or z is None or y[1] != "zmq::message_t::data" or z[1] != "zmq::message_t::size" or ptr(simp(y[2][0])) != ptr(simp(z[2][0])):
        return None
    return ptr(simp(y[2][0])), t.at(y)


def chars_of(t, v, k):
    """the message that a local string holds the characters of"""
    mk = [y for y in t.ev[:k] if y[0].startswith("s.") and y[2] and ptr(simp(y[2][0])) == ptr(simp(v)) and y[0] not in ("s.data", "s.c_str", "s.size", "s.length", "s.empty", "s.eq", "s.cmp", "s.find", "s.at")]
    whole = [y for y in t.ev[:k] if y[0] == "CALL" and y[1].split("[")[0] in ("zmq::message_t::to_string", "zmq::message_t::str") and len(y[2]) > 1 and ptr(simp(y[2][0])) == ptr(simp(v))]
    if whole and (not mk or t.at(mk[-1]) < t.at(whole[-1])):
        return ptr(simp(whole[-1][2][1])), t.at(whole[-1])
    if not mk:
        return None
    z = mk[-1]
    if len(z[2]) == 2 or z[0] == "s.ctor" and len(z[2]) == 3 and simp(z[2][2])[0] == "al" and event_of(t, z[2][2]) is None:
        if z[0] in ("s.ctor", "s.assign") and ptr(simp(z[2][1])) != ptr(simp(v)) and event_of(t, z[2][1], k) is None:
            return chars_of(t, z[2][1], t.at(z))
        y = event_of(t, z[2][1], k)
        return (ptr(simp(y[2][0])), t.at(y)) if z[0] in ("s.ctor", "s.assign") and y is not None and y[1].split("[")[0] in ("zmq::message_t::to_string", "zmq::message_t::str") else None
    if z[0] in ("s.ctor", "s.assign") and len(z[2]) > 2:
        return message_bytes(t, z[2][1], z[2][2], k) or message_range(t, z[2][1], z[2][2], k)
    return None


def message_range(t, a, b, k):
    """the message that a (begin, end) pair spans"""
    y = event_of(t, a, k)
    b = simp(b)
    if y is None or y[1] != "zmq::message_t::data" or b[0] != "p":
        return None
    base, off, idx = ptr(b)
    if off or len(idx) != 1 or bare(base) != bare(y[3]):
        return None
    z = event_of(t, idx[0][1] if isinstance(idx[0], tuple) and len(idx[0]) == 2 and isinstance(idx[0][1], tuple) else idx[0][0], k)
    return (ptr(simp(y[2][0])), t.at(y)) if z is not None and z[1] == "zmq::message_t::size" and ptr(simp(z[2][0])) == ptr(simp(y[2][0])) else None


def payload_of(t, kind, v, k):
    """the message whose bytes the event handed to the functions is made of"""
    o = ptr(simp(v))
    if kind == "Json":
        return chars_of(t, v, k)
    if kind == "Binary":
        b = store_at(t, v, 0, k)
        if b is None:
            return None
        mk = [y for y in t.ev[:k] if y[0] == "CALL" and y[1] == "kpsr::core::NonCopyingStringBuffer::NonCopyingStringBuffer" and ptr(simp(y[2][0])) == ptr(simp(b))]
        return message_bytes(t, mk[-1][2][1], mk[-1][2][2], k) if mk and not dead(t, b, t.at(mk[-1]), k) else None
    mk = [y for y in t.ev[:k] if y[0] in ("ctor", "assign", "resize", "insert") and y[2] and ptr(simp(y[2][0])) == o]
    if not mk or mk[-1][0] == "insert":
        return None
    z = mk[-1]
    if len(z[2]) >= 3:
        r = message_range(t, z[2][1], z[2][2], k)
        if r:
            return r
    n = event_of(t, z[2][1], k) if len(z[2]) > 1 else None
    if n is None or n[1] != "zmq::message_t::size":
        return None
    cp = [y for y in t.ev[t.at(z):k] if y[0] == "CALL" and y[1] in ("memcpy", "std::copy", "std::copy_n", "std::memcpy")]
    if len(cp) != 1 or cp[0][1].startswith("std::copy"):
        return None
    d = event_of(t, cp[0][2][0], k)
    if d is None or d[0] not in ("at", "data", "begin", "front") or ptr(simp(d[2][0])) != o or d[0] == "at" and simp(d[2][1]) != ("c", 0):
        return None
    own = event_of(t, cp[0][2][2], k)
    if own is not None and own[0] == "size" and ptr(simp(own[2][0])) == o and t.at(own) > t.at(z):
        y = event_of(t, cp[0][2][1], k)
        r = (ptr(simp(y[2][0])), t.at(y)) if y is not None and y[1] == "zmq::message_t::data" else None
    else:
        r = message_bytes(t, cp[0][2][1], cp[0][2][2], k)
    return r if r and ptr(simp(n[2][0])) == r[0] else None


@prop("W02", "path-sensitive dataflow from received frames to subscribers over declarations of the sockets and messages",
      "All paths of the three kinds of pollers and of the channels and providers over them, for any topic, payload and order of registration; a receive, a poll or a subscriber may throw.")
def w02(c):
    keep = [r"^kpsr::zmq_mdlw::ZMQPoller<.*::(executeFunction|ZMQPoller|start|stop|~ZMQPoller).*", r"^kpsr::core::NonCopyingStringBuffer::.*"]
    p = c.program(UNIT, [r"^kpsr::zmq_mdlw::(Binary|Json|VoidCaster)ZMQPoller::.*"], keep=keep, libkeep=KEEP)
    q = c.program(UNIT, [r"^kpsr::zmq_mdlw::ZMQPoller<.*::(registerToTopic|unregisterFromTopic|executeFunction|ZMQPoller).*"], libkeep=KEEP)
    M = mems(c, q, Z + "ZMQPoller", {"socket": SOCK, "period": r"long$", "map": r"(unordered_)?map<", "mutex": r"(recursive_)?mutex"})
    for kind, cls in POLLERS.items():
        f = only(c, p, Z + cls + "::poll")
        L, ends, m = ways(c, f)
        got = 0
        for e in ends:
            t, w = L.of(e), where(f, e)
            seg = turn(t)
            ob = lambda rule, ok, msg: c.ob(rule, kind, ok, w, msg)
            pl = [z for z in seg if z[0] == "CALL" and z[1] == "zmq::poll"]
            rx = [z for z in seg if z[0] == "CALL" and z[1] == "zmq::socket_t::recv"]
            ex = [z for z in seg if z[0] == "CALL" and z[1].endswith("ZMQPoller::executeFunction")]
            ob("one-wait", len(pl) == 1 if e.kind == "iter" else len(pl) <= 1, "a turn of the loop does not wait exactly once for messages")
            if len(pl) != 1:
                ob("message-when-ready", not rx and not ex, "a message is received without waiting for one")
                continue
            z, k = pl[0], t.at(pl[0])
            so = event_of(t, store_at(t, z[2][0], 0, k) or ("c", 0), k)
            ob("own-socket", so is not None and re.search(r"socket_t::(operator void\*|handle)$", so[1]) is not None and from_member(L, e, so[2][0], k, M["socket"][1]), "the poller waits on another socket")
            evs = store_at(t, z[2][0], 12, k)
            ob("waits-for-input", evs is not None and bare(evs)[0] == "c" and bare(evs)[1] & 1 == 1 and simp(z[2][1]) == ("c", 1), "the poller does not wait for incoming messages")
            per = bare(z[2][2])
            if ptr(simp(z[2][2]))[0][0] == "al":
                per = bare(store_at(t, z[2][2], 0, k) or ("c", 0))
            ob("own-period", per[0] == "ld" and ptr(simp(mkp(per[1], per[2], per[3])))[:2] == (THIS, M["period"][1]), "the poller waits for another time than its period")
            rd = [y for y in seg if y[0] == "LD" and ptr(simp(y[2][0]))[0] == ptr(simp(z[2][0]))[0] and ptr(simp(y[2][0]))[1] == 14 and t.at(y) > k]
            ready = next((r for r in (truthy(m, e.st, y[3]) if is_low(m, e, y[3]) is None else is_low(m, e, y[3]) for y in rd) if r is not None), None)
            if ready is None and m.decide(e.st, cmpv("slt", ("c", 0), simp(z[3]))) is False:
                ready = False  # the wait says that there is none
            if ready is not True:
                if e.kind in ("iter", "ret"):
                    ob("message-when-ready", not rx and not ex, "a message is received although none is known to be there")
                    fails = m.decide(e.st, cmpv("eq", simp(z[3]), ("c", -1)))
                    ob("message-when-ready", ready is False or fails is True or e.kind == "ret" and fails is not False, "whether a message is there is not looked at")
                continue
            o = [ptr(simp(y[2][1])) for y in rx]
            for y in rx:
                ob("own-socket", from_member(L, e, y[2][0], t.at(y), M["socket"][1]), "a message is received from another socket")
                ob("two-frames", bare(y[2][-1]) == ("c", 0), "a receive does not wait for the frame")
            ob("two-frames", len(rx) <= 2 and len(set(o)) == len(o), "the frames of a message are mixed up")
            ob("once-per-message", len(ex) <= 1, "a message is handed out more than once")
            if e.kind == "iter":
                ob("two-frames", len(rx) == 2, "not exactly the two frames of a message are received")
                ob("once-per-message", len(ex) == 1, "a received message is not handed out")
            for y in ex:
                j = t.at(y)
                ob("two-frames", len([r for r in rx if t.at(r) < j]) == 2, "a message is handed out before its two frames are received")
                if len(rx) < 2:
                    continue
                a, b = chars_of(t, y[2][1], j), payload_of(t, kind, y[2][2], j)
                ob("topic-of-first", a is not None and a[0] == o[0] and t.at(rx[0]) < a[1], "the topic is not the whole first frame")
                ob("payload-of-second", b is not None and b[0] == o[1] and t.at(rx[1]) < b[1], "the payload is not the whole second frame")
                for fr in (rx[0][2][1], rx[1][2][1]):
                    ob("frames-alive", kind == "Json" or not dead(t, fr, t.at(rx[1]), j), "a frame is released before the functions used it")
                ob("own-functions", simp(y[2][0]) == THIS, "the message goes to another poller's functions")
            got += len(ex)
        c.ob("once-per-message", kind, got > 0, f.here(), "no message is ever handed out")
        f = only(c, p, Z + cls + "::" + cls)
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind == "ret":
                t = L.of(e)
                b = calls(t, r"::ZMQPoller::ZMQPoller$")
                c.ob("wired", kind, len(b) == 1 and is_arg(strip(b[0][2][1]), A(f, 1)) and is_arg(bare(b[0][2][2]), A(f, 2)), where(f, e), "the poller is not made for the given socket and period")
    functions(c, q, M)
    from_channels(c)
    b = c.program(UNIT, [r"^kpsr::core::NonCopyingStringBuffer::NonCopyingStringBuffer.*"], libkeep=KEEP)
    f = only(c, b, "kpsr::core::NonCopyingStringBuffer::NonCopyingStringBuffer")
    L, ends, m = ways(c, f)
    for e in ends:
        if e.kind == "ret":
            t = L.of(e)
            st = calls(t, r"^std::basic_streambuf::setg$")
            ok = len(st) == 1
            if ok:
                a, b, z = (ptr(simp(v)) for v in st[0][2][1:4])
                ok = a == b == ptr(A(f, 1)) and z[0] == A(f, 1) and z[1] == 0 and is_arg(bare(end_of(st[0][2][3])), A(f, 2))
            c.ob("given-bytes", "NonCopyingStringBuffer", ok, where(f, e), "the buffer is not exactly the given bytes")


def end_of(v):
    """the one index of a pointer"""
    i = ptr(simp(v))[2]
    x = i[0] if len(i) == 1 else ("c", 0)
    return next((y for y in (x if isinstance(x, tuple) and x and isinstance(x[0], (tuple, int)) else (x,)) if isinstance(y, tuple)), ("c", 0))


def is_low(m, e, v):
    """is the lowest bit of a word known to be set?"""
    from ..sym import opv
    from ..sem import castv
    v = simp(v)
    d = m.decide(e.st, castv("trunc", 1, v))
    if d is not None:
        return d
    for w in (8, 16, 32, 64):
        for x in (v, ("ext", v, 16, 32), castv("sext", w, v), castv("zext", w, v)):
            d = m.decide(e.st, ("cmp", "eq", opv("and", w, x, ("c", 1)), ("c", 0)))
            if d is not None:
                return not d
    return None


def functions(c, p, M):
    """the functions of a poller per topic"""
    mp = "this." + M["map"][0]
    for f in p.fns.values():
        nm = f.sq.rsplit("::", 1)[1]
        if f.sq != Z + "ZMQPoller::" + nm:
            continue
        kind = next((k for k, r in PAYLOAD.items() if re.search(r, f.dem.rsplit("::" + nm, 1)[0])), "?")
        L, ends, m = ways(c, f)
        done = 0
        for e in ends:
            t, w = L.of(e), where(f, e)
            ob = lambda rule, ok, msg: c.ob(rule, "%s %s" % (kind, nm), ok, w, msg)
            if nm == "ZMQPoller":
                if e.kind == "ret":
                    done += 1
                    for k, n in (("socket", 1), ("period", 2)):
                        st = member_written(t, M[k][1])
                        ob("wired", bool(st) and is_arg(bare(st[-1][2][1]), A(f, n)), "the poller keeps another %s than the one given" % k)
                continue
            under_lock(ob, L, e, mp, "this." + M["mutex"][0])
            key = (("ld", AN(f, 1)),)
            if nm == "executeFunction":
                cl = [y for y in t.ev if y[0] == "f.call"]
                if e.kind == "iter":
                    ob("only-its-function", not cl, "functions are called in a loop")
                    continue
                has = in_any(L, e, mp, key)
                for y in cl:
                    ob("only-its-function", L.desc(e, y[2][0], t.at(y)) == "%s{%s}" % (mp, show(key)) and has is True, "another function is called than the topic's")
                    ob("same-event", same_arg(L, e, y[2][1], t.at(y), A(f, 2)), "the function gets another event")
                ob("only-its-function", len(cl) <= 1, "a function is called twice for a message")
                ob("only-its-function", not [y for y in t.ev if y[0] in ("erase", "clear", "insert", "f.assign") and L.cname(e, y) == mp], "handing a message out changes the functions")
                if e.kind == "ret":
                    done += 1
                    ob("presence-known", has is not None, "whether a function is registered is not looked at")
                    ob("handed-out", len(cl) == (1 if has else 0), "a message of a registered topic is not handed out")
            elif nm == "registerToTopic":
                st = [y for y in t.ev if y[0] == "f.assign" and L.desc(e, y[2][0], t.at(y)) == "%s{%s}" % (mp, show(key))]
                ak = [y for y in t.ev if y[0] == "assign-key" and L.cname(e, y) == mp and len(y[2]) > 2 and L.text(e, y[2][1], t.at(y)) == key]
                ob("kept-under-topic", len([y for y in t.ev if y[0] in ("mapat", "insert", "assign-key", "erase", "clear") and L.cname(e, y) == mp]) <= 1 and e.kind != "iter", "a registration changes other topics")
                if e.kind == "ret":
                    done += 1
                    ob("kept-under-topic", len(st) + len(ak) == 1 and (fn_at(L, e, st[0][2][1], t.at(st[0])) if st else fn_at(L, e, ak[0][2][2], t.at(ak[0]))) == ("arg", A(f, 2)[1]), "the function is not kept under its topic")
            elif nm == "unregisterFromTopic":
                er = [y for y in t.ev if y[0] in ("erase", "clear", "insert", "mapat") and L.cname(e, y) == mp]
                ob("removed", e.kind != "iter" and len(er) <= 1 and all(y[0] == "erase" for y in er), "unregistering changes other topics")
                if e.kind == "ret":
                    done += 1
                    gone = in_any(L, e, mp, key) is False
                    ob("removed", gone or len(er) == 1 and (L.text(e, er[0][2][1], t.at(er[0])) == key or (event_of(t, er[0][2][1]) or ("",))[0] == "find" and L.text(e, event_of(t, er[0][2][1])[2][1], t.at(event_of(t, er[0][2][1]))) == key), "the function of the topic stays registered")
        if nm in ("executeFunction", "registerToTopic", "unregisterFromTopic"):
            c.ob("handed-out", "%s %s" % (kind, nm), done > 0, f.here(), "the function never returns")


def in_any(L, e, mp, key):
    from .highperf import in_map
    r = in_map(L, e, mp, key)
    return r if r is not None else found(L, e, mp, key)


def same_arg(L, e, v, k, a):
    o, _ = L.of(e).origin(v, k)
    return is_arg(o, a) or is_arg(strip(v), a) or ptr(simp(v))[0] == a and ptr(simp(v))[1] == 0


def under_lock(ob, L, e, mp, mutex):
    t = L.of(e)
    held = 0
    for y in t.ev:
        if y[0] in ("LOCK", "UNLOCK") and y[1] == mutex:
            held += 1 if y[0] == "LOCK" else -1
            ob("locked", held in (0, 1), "the mutex is taken twice or given back without having been taken")
        elif y[0] == "f.call" or y[2] and (L.cname(e, y) == mp or any((L.desc(e, q, t.at(y)) or "").startswith(mp + "{") for q in y[2] if q[0] not in ("c", "cmp", "op", "cast"))):
            ob("locked", held == 1, "the functions are used without holding the mutex: a subscriber can be gone while it is called")
    if e.kind in ("ret", "throw", "exc"):
        ob("locked", held == 0, "the mutex stays locked")


def poller_of(L, e, v, k, off):
    """is it the poller that the channel holds?"""
    t = L.of(e)
    y = event_of(t, v, k)
    if y is not None and re.search(r"unique_ptr::(operator->|operator\*|get)$", y[1]):
        return ptr(simp(y[2][0]))[:2] == (THIS, off)
    return from_member(L, e, v, k, off)


def from_channels(c):
    CH = Z + "FromZmqChannel"
    p = c.program(UNIT, [r".*kpsr::zmq_mdlw::FromZmqChannel<.*", r".*kpsr::zmq_mdlw::FromZmqMiddlewareProvider::.*"],
                  keep=[r"^kpsr::zmq_mdlw::ZMQPoller<.*", r"^kpsr::zmq_mdlw::[A-Za-z]+ZMQPoller::.*", r"^kpsr::FromMiddlewareChannel<.*"], libkeep=KEEP + [r"^std::unique_ptr::"])
    M = mems(c, p, CH, {"map": r"(unordered_)?map<", "poller": r"unique_ptr<"})
    mp = "this." + M["map"][0]
    seen = {}
    for f in p.fns.values():
        nm = f.sq.rsplit("::", 1)[1]
        if f.sq != CH + "::" + nm or nm.startswith("~"):
            continue
        kind = next((k for k, r in PAYLOAD.items() if re.search(r, f.dem.rsplit("::" + nm, 1)[0])), "?")
        L, ends, m = ways(c, f)
        key = (("ld", AN(f, 1)),) if len(f.args) > 1 else None
        for e in ends:
            t, w = L.of(e), where(f, e)
            ob = lambda rule, ok, msg: c.ob(rule, "%s channel %s" % (kind, nm), ok, w, msg)
            on = [y for y in t.ev if y[0] == "CALL" and "zmq_mdlw::ZMQPoller" in y[1] and y[1].rsplit("::", 1)[1] in ("registerToTopic", "unregisterFromTopic", "start", "stop", "poll", "executeFunction")]
            if e.kind == "iter":
                ob("once", not on, "the poller is used in a loop")
                continue
            for y in on:
                ob("own-poller", poller_of(L, e, y[2][0], t.at(y), M["poller"][1]), "another poller is used")
            ops = [y[1].rsplit("::", 1)[1] for y in on]
            if nm in ("start", "stop"):
                ob("passed-on", ops == [nm] if e.kind == "ret" else set(ops) <= {nm}, "%s() does not %s the poller" % (nm, nm))
                seen[kind, nm] = seen.get((kind, nm), 0) + (e.kind == "ret")
            elif nm == "unregisterFromTopic":
                ob("unregistered", set(ops) <= {nm} and len(ops) <= 1, "unregistering does something else to the poller")
                er = [y for y in t.ev if y[0] in ("erase", "clear", "p.assign", "p.reset", "insert") and (L.cname(e, y) == mp or (L.desc(e, y[2][0], t.at(y)) or "").startswith(mp + "{"))]
                for y in er:
                    ob("channel-outlives", bool(on) and t.at(on[0]) < t.at(y), "the channel of the topic is gone before the poller stops using it")
                    ob("unregistered", y[0] == "erase" and L.text(e, y[2][1], t.at(y)) == key, "another topic's channel goes")
                if e.kind == "ret":
                    ob("unregistered", len(on) == 1 and L.text(e, on[0][2][1], t.at(on[0])) == key and len(er) == 1, "the topic stays registered in part: it cannot be registered again, or its messages still arrive")
                    seen[kind, nm] = 1
            elif nm == "registerToTopic":
                has = in_any(L, e, mp, key)
                if has is not False:
                    ob("once", not on and not [y for y in t.ev if y[0] in ("mapat", "insert", "erase", "clear", "p.assign") and L.cname(e, y) == mp], "a registered topic is registered again: the poller or the map changes")
                    if e.kind == "ret":
                        ob("presence-known", has is True, "whether the topic is registered is not looked at")
                    continue
                ob("once", set(ops) <= {nm} and len(on) <= 1, "registering does something else to the poller")
                if e.kind != "ret":
                    continue
                seen[kind, nm] = 1
                mk = [y for y in t.ev if y[0] == "CALL" and y[1] == "kpsr::FromMiddlewareChannel::FromMiddlewareChannel"]
                ms = [y for y in t.ev if y[0] == "CALL" and y[1] in ("std::make_shared", "std::allocate_shared")]
                ok = len(on) == 1 and len(mk) + len(ms) == 1
                ob("registered", ok and L.text(e, on[0][2][1], t.at(on[0])) == key, "the topic is not registered with one new channel")
                if not ok:
                    continue
                y = (mk + ms)[0]
                a = deref(L, e, y[2][1], t.at(y))
                ob("to-publisher", is_arg(strip(a), A(f, 2)) or same_arg(L, e, a, t.at(y), A(f, 2)), "events of the topic go to another publisher")
                fn = target(p, f, L, e, on[0][2][2], t.at(on[0]))
                ob("to-channel", fn is not None and fn[0] == "onMiddlewareMessage" and fn[1] is not None and channel_at(t, fn[1], t.at(on[0]), y), "the poller is not given the channel's function")
                ent = [q for q in t.ev if q[0] in ("p.assign", "insert") and len(q[2]) > 1 and (L.desc(e, q[2][0], t.at(q)) == "%s{%s}" % (mp, show(key)) or q[0] == "insert" and L.cname(e, q) == mp)]
                ob("channel-kept", len(ent) == 1 and comes_from(L, e, ent[0], y[2][0]), "the channel is not kept under its topic: the poller calls one that is gone")
            elif nm == "FromZmqChannel" and e.kind == "ret":
                u = [y for y in t.ev if y[0] in ("CALL", "STORE") and y[2] and ptr(simp(y[2][0]))[:2] == (THIS, M["poller"][1])]
                ob("wired", any(len(y[2]) > 1 and (same_arg(L, e, y[2][1], t.at(y), A(f, 1)) or strip(y[2][1])[:2] == ("ld", A(f, 1))) for y in u), "the channel does not hold the given poller")
    for kind in POLLERS:
        for nm in ("start", "stop", "registerToTopic", "unregisterFromTopic"):
            c.ob("passed-on", "%s channel %s" % (kind, nm), seen.get((kind, nm), 0) > 0, "", "%s does nothing" % nm)
    for kind, cls in POLLERS.items():
        f = only(c, p, Z + "FromZmqMiddlewareProvider::get%sFromMiddlewareChannel" % kind)
        L, ends, m = ways(c, f)
        n = 0
        for e in ends:
            if e.kind != "ret":
                continue
            n += 1
            t, w = L.of(e), where(f, e)
            mk = [y for y in t.ev if y[0] == "CALL" and re.search(r"::(Binary|Json|VoidCaster)ZMQPoller::\w+ZMQPoller$", y[1])]
            names = [f.argname(i) for i in range(len(f.args))]
            s = names.index("this") if "this" in names else 1
            ok = len(mk) == 1 and mk[0][1].endswith("::" + cls) and is_arg(strip(mk[0][2][1]), ("arg", s + 1)) and is_arg(bare(mk[0][2][2]), ("arg", s + 2))
            c.ob("wired", "provider " + kind, ok, w, "the channel is not made with a poller of its kind for the given socket and period")
            if ok:
                pl = ptr(simp(mk[0][2][0]))
                ob = [y for y in t.ev if y[0] == "CALL" and y[1] == "std::unique_ptr::unique_ptr" and len(y[2]) > 1]
                fin = [y for y in ob if "zmqPoller" in (L.desc(e, y[2][0], t.at(y)) or "") or ptr(simp(y[2][0]))[1] == M["poller"][1]]
                c.ob("wired", "provider " + kind, bool(fin) and holds(L, e, fin[-1][2][1], t.at(fin[-1]), mk[0][2][0]), w, "the channel does not hold the new poller")
        c.ob("wired", "provider " + kind, n > 0, f.here(), "no channel is ever made")


def target(p, f, L, e, v, k):
    """(member function, its object) that a bound function calls"""
    t = L.of(e)
    o, i = t.origin(v, k)
    b = bound(p, f, L, e, v, k, "kpsr::FromMiddlewareChannel")
    if b is not None and b[0] == "member" and b[1]:
        return b[1].rsplit("::", 1)[1], b[2]
    if b is not None and b[0] == "lambda" and b[1]:
        for q in b[1]:
            G, ends, _ = ways(P_NONE, q)
            for x in ends:
                on = [y for y in G.of(x).ev if y[0] == "CALL" and y[1].endswith("FromMiddlewareChannel::onMiddlewareMessage")]
                if x.kind == "iter" and on or x.kind == "ret" and (len(on) != 1 or not passes(G, x, on[0], q)):
                    return None
        return "onMiddlewareMessage", b[2]
    for _ in range(4):
        y = next((y for y in reversed(t.ev[:i]) if y[0] == "CALL" and y[1] == "std::bind" and ptr(simp(y[2][0])) == ptr(simp(o))), None)
        if y is not None:
            j = t.at(y)
            if len(y[2]) < 4:
                return None
            m = store_at(t, y[2][1], 0, j)
            ob = store_at(t, y[2][2], 0, j)
            return method(p, m), ob
        z = event_before(t, o, i)
        if z is None:
            return None
        if len(z[2]) < 2:
            return None
        o, i = t.origin(z[2][1], t.at(z))
    return None


def method(p, m):
    """name of the member function of the channel from middleware that a pointer to member is"""
    if m is None:
        return None
    m = strip(m)
    if m[0] == "g":
        g = p.fns.get(m[1])
        return g.sq.rsplit("::", 1)[1] if g else "onMiddlewareMessage" if "onMiddlewareMessage" in m[1] else None
    if m[0] == "c" and m[1] & 1:
        for n, q in enumerate(p.types):
            if re.match(r"kpsr::FromMiddlewareChannel<", q.get("q") or "") and q.get("mem") and "(anon)" not in q["q"]:
                g = p.vmethod(n, (m[1] - 1) // 8)
                return (g if isinstance(g, str) else g and g.sq or "").rsplit("::", 1)[-1]
    return None


def passes(G, x, y, q):
    """does the call pass the message of the lambda on?"""
    o, _ = G.of(x).origin(y[2][1], G.of(x).at(y))
    return is_arg(o, A(q, 1)) or is_arg(strip(y[2][1]), A(q, 1)) or ptr(simp(o))[0] == A(q, 1) or copy_of(G, x, y[2][1], A(q, 1))


def copy_of(G, x, v, a):
    t = G.of(x)
    for _ in range(3):
        y = next((y for y in reversed(t.ev) if y[0] in ("s.ctor", "ctor", "STORE") and len(y[2]) > 1 and ptr(simp(y[2][0])) == ptr(simp(v))), None)
        if y is None:
            return False
        v = y[2][1]
        if ptr(simp(v))[0] == a or is_arg(strip(v), a):
            return True
    return False


class Quiet:
    """a context that counts nothing"""
    def analysed(self, f):
        pass

    def count(self, *a):
        pass


P_NONE = Quiet()


def channel_at(t, v, k, made):
    """is the value a pointer to the channel that was made by the event?"""
    v = simp(v)
    if ptr(v) == ptr(simp(made[2][0])):
        return True
    y = event_of(t, v, k)
    if v[0] == "ld":
        return channel_at(t, mkp(v[1], v[2], v[3]), k, made) or any(q[0] == "p.ctor" and ptr(simp(q[2][0])) == ptr(simp(mkp(v[1], v[2], v[3]))) and ptr(simp(q[2][1])) == ptr(simp(made[2][0])) for q in t.ev[:k] if len(q[2]) > 1)
    if y is not None and y[0] in ("p.get", "p.deref", "p.arrow"):
        o, _ = t.origin(y[2][0], t.at(y))
        return ptr(o) == ptr(simp(made[2][0])) or any(q[0] == "p.ctor" and ptr(simp(q[2][0])) in (ptr(simp(y[2][0])), ptr(o)) and ptr(simp(q[2][1])) == ptr(simp(made[2][0])) for q in t.ev[:k] if len(q[2]) > 1)
    return False


# ------------------------------------------------------------------ W03
@prop("W03", "path-sensitive typestate of the ZMQ polling thread (flags, thread object, loop function) and of the order in which it and what it uses are destroyed",
      "All paths of start, stop, the polling loops and the destructors of the three kinds of pollers and their channels; a path that is possible for some timing of the other thread is a path of the analysis.")
def w03(c):
    p = c.program(UNIT, [r"^kpsr::zmq_mdlw::ZMQPoller<.*::(start|stop|pollingLoop|~?ZMQPoller)\(.*"])
    ev = gev(POL + [(r"vcall#|::poll$", "POLL")], FLAGS, locks=False)
    thr = lambda x: bool(re.match(r"^std::thread::thread$|::poll$", x.callee or "")) or not x.callee
    seen = {}
    for f in p.fns.values():
        nm = f.sq.rsplit("::", 1)[1]
        if f.sq != Z + "ZMQPoller::" + nm:
            continue
        kind = next((k for k, r in PAYLOAD.items() if re.search(r, f.dem.rsplit("::" + nm, 1)[0])), "?")
        tag = kind + " "
        seen[kind, nm] = 1
        c.analysed(f)
        if nm == "start":
            begin_life(c, f, ev, thr, "_poller", tag)
        elif nm == "stop":
            end_life(c, f, ev, "_poller", tag)
        elif nm == "~ZMQPoller":
            gone_life(c, f, ev, tag)
        elif nm == "pollingLoop":
            in_thread(c, f, tag)
        elif nm == "ZMQPoller":
            ends, m = walk(f, ev, throws=lambda x: False)
            for e in ends:
                if e.kind == "ret":
                    for n in ("running", "started"):
                        c.ob("starts-stopped", tag + n, last_store(m, e, n) is False, f.here(), "a new poller is marked as %s" % n)
    shared_flags(c, p, Z + "ZMQPoller", ("_running", "_started"))
    for kind in POLLERS:
        for nm in ("start", "stop", "~ZMQPoller", "pollingLoop", "ZMQPoller"):
            c.need((kind, nm) in seen, "%s of the %s poller was not found" % (nm, kind))
    p = c.program(UNIT, [r"^kpsr::zmq_mdlw::(Binary|Json|VoidCaster)ZMQPoller::.*"], keep=[r"^kpsr::zmq_mdlw::ZMQPoller<.*::(executeFunction|ZMQPoller|start|stop|~ZMQPoller)\(.*", r"^kpsr::core::NonCopyingStringBuffer::.*"])
    pev2 = [(r"^zmq::poll$", "POLL"), (r"executeFunction$", "FN"), (r"ZMQPoller::stop$", "STOP"), (r"ZMQPoller::~ZMQPoller$", "~BASE"), (r"^std::.*::~\w+$", "~MEMBER")]
    ev2 = gev(pev2, FLAGS, locks=False)
    for kind, cls in POLLERS.items():
        f = only(c, p, Z + cls + "::poll")
        c.analysed(f)
        ends, m = walk(f, ev2, throws=lambda x: bool(re.match(r"^zmq::|.*executeFunction$", x.callee or "")))
        ob = lambda rule, ok, w, msg: c.ob(rule, kind + " poll", ok, w, msg)
        polls = 0
        for e in ends:
            c.count("paths")
            w = f.where(e.x) if e.x is not None else f.here()
            full = tuple(e.pre) + tuple(e.ev)
            for k in range(len(e.pre), len(full)):
                z = full[k]
                if z[0] == "POLL":
                    polls += 1
                    last = max([j for j in range(k) if full[j][0] == "POLL"] + [len(e.pre) if e.kind == "iter" else 0])
                    fl = flow(m, e.st, full, last, k)
                    ob("stopped-means-stopped", fl.get("started") is True and fl.get("running") is True, f.where(f.insts[z.i]), "the poller waits for messages without looking whether it was stopped")
                if z[0] == "ST":
                    ob("announces-once", truthy(m, e.st, z.v[0]) is False, f.where(f.insts[z.i]), "the thread raises a flag again: a stop in between is lost")
            if e.kind == "ret":
                pl = [z for z in e.ev if z[0] == "POLL"]
                fl = flow(m, e.st, full, max([full.index(z) for z in pl] + [0]), len(full))
                failed = any(m.decide(e.st, cmpv("eq", simp(z.r), ("c", -1))) is True or m.decide(e.st, cmpv("slt", simp(z.r), ("c", 0))) is True for z in pl)
                ob("leaves-only-when-stopped", fl.get("started") is False or fl.get("running") is False or failed, w, "the polling thread ends although the poller was not stopped")
            if e.kind == "iter":
                ob("polls-each-turn", len(e.evs("POLL")) == 1, w, "a turn of the loop does not wait exactly once")
        ob("polls", polls > 0, f.here(), "the loop never waits for messages")
        ds = [g for g in p.fns.values() if g.sq == Z + cls + "::~" + cls]
        c.need(ds, "the destructor of %s is gone" % cls)
        for g in ds:
            c.analysed(g)
            ends, m = walk(g, ev2, throws=lambda x: False)
            for e in ends:
                if e.kind == "ret":
                    c.count("paths")
                    k = [j for j, z in enumerate(e.ev) if z[0] == "STOP"]
                    d = [j for j, z in enumerate(e.ev) if z[0] in ("~MEMBER", "~BASE") and (z.p or "").startswith("this")]
                    c.ob("stopped-before-poll-dies", cls, bool(k) and (not d or k[0] < d[0]), g.here(), "the poller is destroyed while its thread can still call its poll()")
    # what the thread uses lives longer than the thread
    p = c.program(UNIT, [r"^kpsr::zmq_mdlw::FromZmqChannel<.*"], keep=[r"^kpsr::zmq_mdlw::ZMQPoller<.*", r"^kpsr::FromMiddlewareChannel<.*"], libkeep=KEEP)
    M = mems(c, p, Z + "FromZmqChannel", {"map": r"(unordered_)?map<", "poller": r"unique_ptr<"})
    ok = M["poller"][1] > M["map"][1]
    if not ok:
        ds = [g for g in p.fns.values() if g.sq == Z + "FromZmqChannel::~FromZmqChannel"]
        ok = bool(ds)
        for g in ds:
            L, ends, m = ways(c, g)
            for e in ends:
                if e.kind == "ret":
                    t = L.of(e)
                    a = [t.at(y) for y in t.ev if y[0] == "CALL" and re.search(r"vcall#1|ZMQPoller.*::(stop|~)|unique_ptr::reset$", y[1])]
                    b = [t.at(y) for y in t.ev if y[0] in ("dtor", "clear") and y[2] and ptr(simp(y[2][0]))[:2] == (THIS, M["map"][1])]
                    ok = ok and bool(a) and (not b or min(a) < min(b))
    c.ob("thread-ends-first", "FromZmqChannel", ok, "core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h", "the channels of the topics are destroyed while the poller's thread can still call them")


def shared_flags(c, p, cls, names):
    """flags that two threads use without a mutex are atomic"""
    from .highperf import tyname
    n = 0
    for t in p.types:
        if re.match(re.escape(cls) + r"(<.*>)?$", t.get("q") or "") and t.get("mem") and "(anon)" not in t["q"]:
            for x in t["mem"]:
                if x["name"] in names:
                    n += 1
                    c.ob("atomic-flag", x["name"], re.match(r"(__)?atomic", tyname(p, x["ty"])) is not None, cls, "two threads use a plain variable without a mutex")
    c.need(n, "the flags of %s were not found" % cls)


def in_thread(c, f, tag):
    """the function of the thread says that it runs and then polls, once"""
    from .publishers import ways as pways
    L, ends, m = pways(c, f)
    n = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        pl = [y for y in t.ev if y[0] == "CALL" and (y[1].endswith("::poll") or y[1].startswith("vcall#"))]
        up = [y for y in t.ev if y[0] in ("STORE", "RMW", "ST") and t.name(y[2][0]).lstrip("&") in ("this._running", "this._started")]
        ob = lambda rule, ok, msg: c.ob(rule, tag + "pollingLoop", ok, w, msg)
        if e.kind == "iter":
            ob("polls-once", not pl and not up, "the poller polls in a loop")
            continue
        ob("polls-once", len(pl) <= 1 and all(is_arg(strip(y[2][0]), THIS) for y in pl), "another poller polls")
        ob("announces-once", all(t.name(y[2][0]).lstrip("&") == "this._running" for y in up), "the thread marks the poller as started")
        b = [y for y in up if truthy(m, e.st, y[2][1]) is True]
        ob("announces-once", len(b) <= 1 and (not b or not pl or t.at(b[0]) < t.at(pl[0])), "the running flag is raised again: a stop in between is lost")
        if e.kind == "ret":
            n += 1
            ob("announces-running", len(b) == 1, "the thread does not say that it runs")
            ob("polls-once", len(pl) == 1, "the thread does not poll")
    c.ob("polls-once", tag + "pollingLoop", n > 0, f.here(), "the thread never ends")


# ------------------------------------------------------------------ W04
ENVCPP = REPO + "/core/modules/zmq_mdlw/src/zmq_env.cpp"
KINDS = ("String", "Int", "Float", "Bool")


def on_env(L, e, y, off):
    return from_member(L, e, y[2][0], L.of(e).at(y), off)


@prop("W04", "path-sensitive analysis of the shared environment and its poller over the configuration below it, the mapper and the sockets, with a lockset",
      "All paths of the getters, setters, loading, publication, reception, construction and destruction; sends, receives and the configuration below may throw or refuse.")
def w04(c):
    CL, PO = Z + "ZMQEnv", Z + "ZMQConfigurationPoller"
    p = c.program(ENVCPP, [r"^kpsr::zmq_mdlw::ZMQ(Env|ConfigurationPoller)::.*"],
                  keep=[r".*kpsr::ConfigurationEnvironment::.*", r".*kpsr::Mapper<.*", r"^kpsr::zmq_mdlw::ZMQConfigurationPoller::(start|stop|ZMQConf|~ZMQConf).*", r"^kpsr::zmq_mdlw::ZMQEnv::updateConf.*"], libkeep=KEEP)
    M = mems(c, p, CL, {"env": r"\*(kpsr::)?ConfigurationEnvironment", "poller": r"\*.*ConfigurationPoller", "mutex": r"(recursive_)?mutex", "local": r"bool$", "stamp": r"long$", "mapper": r"(kpsr::)?Mapper"})
    T = next(t for t in p.types if t.get("q") == CL and t.get("mem"))
    has = {x["name"]: x["off"] for x in T["mem"]}
    topic, key = "_topicName", "_zmqKey"
    c.need({topic, key, "_zmqPublisher", "_zmqSubscriber"} <= set(has), "members of the ZMQ environment are gone")
    pub, sub = has["_zmqPublisher"], has["_zmqSubscriber"]
    mutex = "this." + M["mutex"][0]
    n = 0
    for kind in KINDS:
        for what in ("get", "set"):
            f = only(c, p, CL + "::%sProperty%s" % (what, kind))
            n += delegates(c, f, what + kind, M, pub, topic, key, mutex, 5 if what == "get" else 4, r"ConfigurationEnvironment::%sProperty%s$" % (what, kind), publishes=lambda r: what == "set")
    n += delegates(c, only(c, p, CL + "::loadFile"), "loadFile", M, pub, topic, key, mutex, 3, r"ConfigurationEnvironment::loadFile$", publishes=lambda r: r)
    n += delegates(c, only(c, p, CL + "::updateConfiguration"), "updateConfiguration", M, pub, topic, key, mutex, 2, r"ConfigurationEnvironment::updateConfiguration$", publishes=lambda r: False)
    c.need(n >= 10, "the functions of the ZMQ environment were not found")
    received(c, only(c, p, PO + "::poll"), sub)
    env_life(c, p, CL, PO, M)


def delegates(c, f, name, M, pub, topic, key, mutex, nargs, rx, publishes):
    L, ends, m = ways(c, f)
    done = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, name, ok, w, msg)
        on = calls(t, rx)
        sn = calls(t, r"^zmq::socket_t::send$")
        held = 0
        for y in t.ev:
            if y[0] in ("LOCK", "UNLOCK") and y[1] == mutex:
                held += 1 if y[0] == "LOCK" else -1
                ob("locked", held in (0, 1), "the mutex is taken twice or given back without having been taken")
            elif y[0] == "CALL" and "ConfigurationEnvironment::" in y[1]:
                ob("locked", held == 1, "the configuration is used while the poller may be changing it")
            elif y[0] == "CALL" and y[1] == "zmq::socket_t::send":
                ob("locked", held == 1, "two threads can mix the frames of their messages")
        if e.kind == "iter":
            ob("once", not on and not sn, "the configuration is used in a loop")
            continue
        ob("locked", held == 0, "the mutex stays locked")
        ob("once", len(on) <= 1, "the configuration is used more than once")
        if len(sn):
            ob("published-after", bool(on) and t.at(on[0]) < t.at(sn[0]), "the configuration is published before the change")
        if e.kind != "ret":
            continue
        done += 1
        ob("once", len(on) == 1, "the request does not reach the configuration")
        if len(on) != 1:
            continue
        y, k = on[0], t.at(on[0])
        ob("own-configuration", on_env(L, e, y, M["env"][1]), "another configuration is used")
        for i in range(1, nargs):
            ob("same-arguments", len(y[2]) == nargs and same_arg(L, e, y[2][i], k, A(f, i)), "argument %d is not passed on" % i)
        r = None
        if y[3] is not None:
            a = truthy(m, e.st, y[3])
            v = truthy(m, e.st, e.val) if e.val is not None else None
            ob("same-result", e.val is not None and (bare(e.val) == simp(y[3]) or a is not None and a == v), "the result is not that of the configuration")
            r = a
        p = publishes(r)
        if p is None:
            ob("published", False, "whether the change was made is not looked at before it is published" if sn else "a change is not published")
        elif not p:
            ob("not-echoed", not sn, "an unchanged or received configuration is published")
        else:
            ob("published", len(sn) == 2, "a change is not published as one message of two frames")
            if len(sn) == 2:
                message(ob, L, e, sn, k, M, pub, topic, key)
    c.ob("once", name, done > 0, f.here(), "the function never returns")
    return done > 0


def message(ob, L, e, sn, after, M, pub, topic, key):
    """topic, then what the mapper makes of key, exported configuration and source"""
    t = L.of(e)
    for i, z in enumerate(sn):
        ob("own-socket", from_member(L, e, z[2][0], t.at(z), pub), "a frame goes to another socket")
        ob("frames-together", sent(L, e, z)[1] is (i == 0), "the frames are not one message")
    b, _ = sent(L, e, sn[0])
    ob("topic-first", b is not None and b[0] == "text" and len(b[1]) == 1 and b[1][0] == ("ld", "this." + topic), "the first frame is not the whole topic")
    z = sn[1]
    k = t.at(z)
    o = frame_string(t, z, k)
    mp = [y for y in calls(t, r"^kpsr::Mapper::toMiddleware$") if t.at(y) < k]
    ok = o is not None and len(mp) == 1 and ptr(simp(mp[0][2][2])) == o and not any(t.writes(q, mp[0][2][2]) for q in t.ev[t.at(mp[0]) + 1:k])
    ob("whole-data", ok, "the second frame is not the whole mapped configuration")
    if not ok:
        return
    D = ptr(simp(mp[0][2][1]))
    at = t.at(mp[0])
    fields = {}
    for y in t.ev[:at]:
        if y[0] in ("s.ctor", "s.assign", "STORE") and ptr(simp(y[2][0]))[0] == D[0]:
            fields[ptr(simp(y[2][0]))[1] - D[1]] = y
    tx = {off: (L.text(e, y[2][1], t.at(y)) if len(y[2]) > 1 and y[0] != "STORE" else None) for off, y in fields.items()}
    ks = [off for off, v in tx.items() if v == (("ld", "this." + key),)]
    ob("own-key", 0 in ks, "the message does not carry the key of this environment")
    ex = [y for y in calls(t, r"ConfigurationEnvironment::exportEnvironment") if after < t.at(y) < at]
    ob("whole-data", len(ex) == 1 and on_env(L, e, (0, 0, ex[0][2][1:]) if len(ex[0][2]) > 1 else ex[0], M["env"][1]) or len(ex) == 1 and from_member(L, e, ex[0][2][-1], t.at(ex[0]), M["env"][1]), "the configuration is not exported after the change")
    if len(ex) == 1:
        dest = ptr(simp(ex[0][2][0]))
        ob("whole-data", any(y[0] != "STORE" and len(y[2]) > 1 and ptr(t.origin(y[2][1], t.at(y))[0]) == dest and off for off, y in fields.items()) or dest[0] == D[0], "the message does not carry the exported configuration")
    src = [y for off, y in fields.items() if y[0] == "STORE" and from_value(y[2][1], M["stamp"][1])]
    ob("own-source", len(src) == 1, "the message does not say where it comes from: the sender would take it for a foreign one")


def from_value(v, off):
    v = bare(v)
    return v[0] == "ld" and ptr(simp(mkp(v[1], v[2], v[3])))[:2] == (THIS, off)


def frame_string(t, z, k):
    """the string whose characters a frame is made of"""
    b = simp(z[2][1])
    o = ptr(simp(mkp(bare(b)[1], bare(b)[2], bare(b)[3])))[0] if len(z[2]) == 4 and bare(b)[0] == "ld" else ptr(b)[0]
    mk = [y for y in t.ev[:k] if y[0] == "CALL" and re.search(r"^zmq::(const_buffer::const_buffer|message_t::message_t)$", y[1]) and ptr(simp(y[2][0]))[0] == o and len(y[2]) == 3]
    if not mk:
        return None
    a, s = event_of(t, mk[-1][2][1], t.at(mk[-1])), event_of(t, mk[-1][2][2], t.at(mk[-1]))
    ok = a is not None and s is not None and a[0] in ("s.data", "s.c_str") and s[0] in ("s.size", "s.length") and ptr(simp(a[2][0])) == ptr(simp(s[2][0]))
    return ptr(simp(a[2][0])) if ok else None


def received(c, f, sub):
    L, ends, m = ways(c, f)
    taken = 0
    for e in ends:
        t, w = L.of(e), where(f, e)
        ob = lambda rule, ok, msg: c.ob(rule, "poll", ok, w, msg)
        pl = [z for z in t.ev if z[0] == "CALL" and z[1] == "zmq::poll"]
        rx = [z for z in t.ev if z[0] == "CALL" and z[1] == "zmq::socket_t::recv"]
        up = calls(t, r"ZMQEnv::updateConfiguration$")
        sn = calls(t, r"^zmq::socket_t::send$|ConfigurationEnvironment::")
        ob("not-echoed", not sn, "a received configuration is sent on or changed past the environment")
        if e.kind == "iter":
            ob("once", not rx and not up and not pl, "messages are received in a loop within one turn")
            continue
        ob("once", len(up) <= 1 and len(pl) <= 1, "a message is applied more than once")
        if not pl:
            ob("message-when-ready", not rx and not up and e.kind != "ret", "a turn does not wait for messages")
            continue
        z, k = pl[0], t.at(pl[0])
        so = event_of(t, store_at(t, z[2][0], 0, k) or ("c", 0), k)
        ob("own-socket", so is not None and of_env(L, e, so[2][0], sub), "the poller waits on another socket")
        evs = store_at(t, z[2][0], 12, k)
        ob("waits-for-input", evs is not None and bare(evs)[0] == "c" and bare(evs)[1] & 1 == 1 and simp(z[2][1]) == ("c", 1), "the poller does not wait for incoming messages")
        per = bare(z[2][2])
        ob("own-period", per[0] == "ld" and t.name(mkp(per[1], per[2], per[3])).lstrip("&") == "this._pollPeriod", "the poller waits for another time than its period")
        rd = [y for y in t.ev if y[0] == "LD" and ptr(simp(y[2][0]))[0] == ptr(simp(z[2][0]))[0] and ptr(simp(y[2][0]))[1] == 14 and t.at(y) > k]
        ready = next((r for r in (truthy(m, e.st, y[3]) if is_low(m, e, y[3]) is None else is_low(m, e, y[3]) for y in rd) if r is not None), None)
        if ready is None and m.decide(e.st, cmpv("slt", ("c", 0), simp(z[3]))) is False:
            ready = False
        if ready is not True:
            ob("message-when-ready", not rx and not up, "a message is received although none is known to be there")
            if e.kind == "ret":
                ob("message-when-ready", ready is False or m.decide(e.st, cmpv("eq", simp(z[3]), ("c", -1))) is True, "whether a message is there is not looked at")
            continue
        for y in rx:
            ob("own-socket", of_env(L, e, y[2][0], sub), "a message is received from another socket")
            ob("two-frames", bare(y[2][-1]) == ("c", 0), "a receive does not wait for the frame")
        o = [ptr(simp(y[2][1])) for y in rx]
        ob("two-frames", len(rx) <= 2 and len(set(o)) == len(o), "the frames of a message are mixed up")
        fm = calls(t, r"^kpsr::Mapper::fromMiddleware$")
        same = data = None
        keyed = sourced = None
        if len(fm) == 1 and len(rx) == 2:
            b = chars_of(t, fm[0][2][1], t.at(fm[0]))
            ob("payload-of-second", b is not None and b[0] == o[1] and t.at(rx[1]) < b[1], "the configuration is not read from the whole second frame")
            D = ptr(simp(fm[0][2][2]))
            for y in t.ev[t.at(fm[0]) + 1:]:
                if y[0] in ("s.eq", "s.ne"):
                    ns = [ptr(simp(q)) for q in y[2]]
                    if any(q[0] == D[0] and q[1] == D[1] for q in ns) and any(t.name(q).lstrip("&") == "this._zmqKey" for q in y[2]):
                        keyed = truthy(m, e.st, y[3])
                        keyed = keyed if y[0] == "s.eq" or keyed is None else not keyed
            ld = [y for y in t.ev[t.at(fm[0]):] if y[0] == "LD"]
            a = [y for y in ld if ptr(simp(y[2][0]))[0] == D[0] and ptr(simp(y[2][0]))[1] > D[1]]
            b = [y for y in ld if t.name(y[2][0]).lstrip("&") == "this._sourceId"]
            for x in a:
                for y in b:
                    d = m.decide(e.st, cmpv("eq", simp(x[3]), simp(y[3])))
                    sourced = d if d is not None else sourced
            for y in up:
                v = ptr(simp(y[2][1]))
                ob("data-applied", v[0] == D[0] and 0 < v[1] - D[1] < 64 and from_env(L, e, y[2][0]), "something else than the received configuration is applied")
        for y in up:
            ob("only-foreign-with-key", keyed is True and sourced is False, "a configuration is applied that has another key or was sent by this environment itself")
        taken += len(up)
        if e.kind == "ret":
            ob("two-frames", len(rx) == 2 and len(fm) == 1, "the two frames of a message are not received and read")
            ob("applied", bool(up) or keyed is False or sourced is True, "a configuration of another process with the same key is not applied")
    c.ob("applied", "poll", taken > 0, f.here(), "no received configuration is ever applied")


def of_env(L, e, v, sub):
    n = L.of(e).name(v).lstrip("&")
    return "_zmqEnv" in n and "_zmqSubscriber" in n


def from_env(L, e, v):
    return "this._zmqEnv" in L.of(e).name(v) or "_zmqEnv" in (L.desc(e, v) or "")


def env_life(c, p, CL, PO, M):
    for f in [g for g in p.fns.values() if g.sq == CL + "::ZMQEnv"]:
        names = {f.argname(i): i for i in range(len(f.args))}
        own = "configurationEnvironment" not in names and not any("ConfigurationEnvironment*" in f.dem.split("(", 1)[1].split(",")[0] for _ in (0,))
        L, ends, m = ways(c, f)
        inst = "constructor " + ("own" if own else "given")
        n = 0
        for e in ends:
            if e.kind != "ret":
                continue
            n += 1
            t, w = L.of(e), where(f, e)
            ob = lambda rule, ok, msg: c.ob(rule, inst, ok, w, msg)
            mk = calls(t, r"ZMQConfigurationPoller::ZMQConfigurationPoller$")
            st = calls(t, r"ZMQConfigurationPoller::start$")
            ob("poller-started", len(mk) == 1 and len(st) == 1 and t.at(mk[0]) < t.at(st[0]), "the environment does not start one poller")
            if len(mk) != 1 or len(st) != 1:
                continue
            k = t.at(mk[0])
            ob("poller-started", ptr(simp(st[0][2][0])) == ptr(simp(mk[0][2][0])) or held_by_member(t, st[0][2][0], M["poller"][1], mk[0][2][0]), "another poller is started than the one made")
            kept = member_written(t, M["poller"][1])
            ob("poller-kept", bool(kept) and ptr(simp(kept[-1][2][1])) == ptr(simp(mk[0][2][0])), "the poller is not kept: its thread is never ended")
            ob("poller-wired", ptr(simp(mk[0][2][2])) == (THIS, 0, ()) or simp(mk[0][2][2]) == THIS, "the poller updates another environment")
            fl = member_written(t, M["local"][1])
            ob("ownership-known", bool(fl) and truthy(m, e.st, fl[-1][2][1]) is own, "whether the configuration belongs to the environment is not kept")
            ts = member_written(t, M["stamp"][1])
            ob("same-source", bool(ts) and (bare(mk[0][2][3]) == bare(ts[-1][2][1]) or from_value(mk[0][2][3], M["stamp"][1])), "the poller does not know the source of this environment's own messages")
            key = textof_key(L, e, mk[0][2][1], k)
            ob("same-key", L.text(e, mk[0][2][1], k) == (("ld", "this._zmqKey"),) or key == "this._zmqKey" or own and key == AN(f, 2) or ptr(t.origin(mk[0][2][1], k)[0])[0] == THIS, "the poller has another key than the environment")
            late = [z for z in t.ev[t.at(st[0]):] if z[0] in ("STORE", "s.assign", "s.ctor") and ptr(simp(z[2][0]))[0] == THIS or z[0] == "CALL" and "ConfigurationEnvironment::" in z[1]]
            ob("complete-before-thread", not late, "the environment is still being built when its thread runs")
            ev = member_written(t, M["env"][1])
            if own:
                ob("own-configuration", bool(ev) and any(ptr(simp(y[2][0])) == ptr(simp(ev[-1][2][1])) for y in calls(t, r"ConfigurationEnvironment::ConfigurationEnvironment$")), "the environment does not have a configuration of its own")
            else:
                ob("own-configuration", bool(ev) and is_arg(strip(ev[-1][2][1]), A(f, 1)), "another configuration is used than the one given")
        c.ob("poller-started", inst, n > 0, f.here(), "no environment is ever made")
    ds = [g for g in p.fns.values() if g.sq == CL + "::~ZMQEnv"]
    c.need(ds, "the destructor of the ZMQ environment is gone")
    for f in ds:
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            t, w = L.of(e), where(f, e)
            ob = lambda rule, ok, msg: c.ob(rule, "destructor", ok, w, msg)
            sp = calls(t, r"ZMQConfigurationPoller::stop$")
            dl = [y for y in t.ev if y[0] == "CALL" and y[1] == "operator delete" or y[0] == "CALL" and y[1].startswith("vcall#1(")]
            own = [y for y in t.ev if y[0] == "CALL" and ("~ZMQConfigurationPoller" in y[1] or y in dl) and from_member(L, e, y[2][0], t.at(y), M["poller"][1])]
            env = [y for y in dl if from_member(L, e, y[2][0], t.at(y), M["env"][1])]
            ob("thread-ends-first", len(sp) >= 1 and from_member(L, e, sp[0][2][0], t.at(sp[0]), M["poller"][1]) and all(t.at(sp[0]) < t.at(y) for y in own + env), "the poller or the configuration goes while the poller's thread uses it")
            fl = [truthy(m, e.st, y[3]) for y in t.ev if y[0] == "LD" and ptr(simp(y[2][0]))[:2] == (THIS, M["local"][1])]
            fl = next((x for x in fl if x is not None), None)
            ob("deletes-only-own", not env or fl is True, "a configuration that was given to the environment is deleted")
            held = [isnull(t, y[3]) for y in t.ev if y[0] == "LD" and ptr(simp(y[2][0]))[:2] == (THIS, M["env"][1])]
            ob("deletes-only-own", fl is not True or bool(env) or True in held, "the configuration the environment made is not deleted")
    shared_flags(c, p, PO, ("_running",))
    # the poller's thread
    q = c.program(ENVCPP, [r"^kpsr::zmq_mdlw::ZMQConfigurationPoller::.*"], keep=[r"^kpsr::zmq_mdlw::ZMQConfigurationPoller::poll\(.*", r"^kpsr::zmq_mdlw::ZMQConfigurationPoller::stop\(.*"], libkeep=KEEP)
    f = only(c, q, PO + "::start")
    L, ends, m = ways(c, f)
    for e in ends:
        t, w = L.of(e), where(f, e)
        th = calls(t, r"^std::thread::thread$")
        up = [y for y in t.ev if y[0] in ("STORE", "RMW") and t.name(y[2][0]).lstrip("&") == "this._running"]
        if e.kind == "ret":
            th1 = [y for y in th if len(y[2]) > 1]
            c.ob("one-thread", "start", len(th1) == 1, w, "not exactly one thread is started")
            c.ob("running-before-thread", "start", bool(th1) and len(up) == 1 and truthy(m, e.st, up[0][2][1]) is True and t.at(up[0]) < t.at(th1[0]), w, "the thread can start before the flag is raised and leave at once, or the flag is raised after a stop")
            mv = [y for y in calls(t, r"^std::thread::(operator=|swap)$") if t.name(y[2][0]).lstrip("&") == "this._threadPoller"]
            c.ob("thread-kept", "start", bool(mv) or any(t.name(y[2][0]).lstrip("&") == "this._threadPoller" for y in th1), w, "the thread is not kept: nobody can join it")
            c.ob("no-detach", "start", not calls(t, r"^std::thread::detach$"), w, "the thread is detached")
    lam = [g for g in q.fns.values() if g.sq.startswith(PO + "::") and g.sq.endswith("operator()")] + [g for g in q.fns.values() if re.match(re.escape(PO) + r"::\w*([lL]oop|run)\w*$", g.sq)]
    c.need(lam, "the function of the configuration poller's thread was not found")
    for f in lam:
        L, ends, m = ways(c, f)
        n = 0
        for e in ends:
            t, w = L.of(e), where(f, e)
            seg = turn(t)
            pl = [y for y in seg if y[0] == "CALL" and y[1].endswith("ZMQConfigurationPoller::poll")]
            ld = [truthy(m, e.st, y[3]) for y in seg if y[0] == "LD" and t.name(y[2][0]).lstrip("&").endswith("_running") and (not pl or t.at(y) < t.at(pl[0]))]
            up = [y for y in t.ev if y[0] == "STORE" and t.name(y[2][0]).lstrip("&").endswith("_running")]
            c.ob("stopped-means-stopped", "thread", not up, w, "the thread changes the flag: a stop in between is lost")
            if e.kind == "iter":
                n += len(pl)
                c.ob("polls-each-turn", "thread", len(pl) == 1, w, "a turn of the loop does not poll exactly once")
                c.ob("stopped-means-stopped", "thread", True in ld, w, "the thread polls without looking whether it was stopped")
            elif e.kind == "ret":
                al = [truthy(m, e.st, y[3]) for y in seg if y[0] == "LD" and t.name(y[2][0]).lstrip("&").endswith("_running")]
                c.ob("leaves-only-when-stopped", "thread", False in al, w, "the thread ends although it was not stopped")
        c.ob("polls-each-turn", "thread", n > 0, f.here(), "the thread never polls")
    f = only(c, q, PO + "::stop")
    L, ends, m = ways(c, f)
    joined = 0
    for e in ends:
        if e.kind != "ret":
            continue
        t, w = L.of(e), where(f, e)
        dn = [y for y in t.ev if y[0] in ("STORE", "RMW") and t.name(y[2][0]).lstrip("&") == "this._running"]
        jn = calls(t, r"^std::thread::join$")
        ok = calls(t, r"^std::thread::joinable$")
        c.ob("told-before-join", "stop", len(dn) >= 1 and truthy(m, e.st, dn[-1][2][1]) is False and all(t.at(dn[0]) < t.at(y) for y in jn), w, "the thread is awaited without being told to end")
        c.ob("joins", "stop", bool(jn) or any(truthy(m, e.st, y[3]) is False for y in ok), w, "stop() does not wait for the thread")
        joined += len(jn)
    c.ob("joins", "stop", joined > 0, f.here(), "stop() never waits for the thread")


def held_by_member(t, v, off, obj):
    v = strip(v)
    if v[0] != "ld" or ptr(simp(mkp(v[1], v[2], v[3])))[:2] != (THIS, off):
        return False
    st = member_written(t, off)
    return bool(st) and ptr(simp(st[-1][2][1])) == ptr(simp(obj))
