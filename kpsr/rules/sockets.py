"""Socket middleware: descriptor ownership, kernel failures, complete transfers."""
import os
import re

from ..build import REPO, VERIF
from ..core import prop
from ..sem import Ev, clean, cmpv, errnos, failed, gev, linv, lsub, lsum, mkp, ptr, simp, walk
from .ring import witness

NS = "kpsr::socket_mdlw::"
DIR = "core/modules/socket_mdlw/src"
SYS = [(r"^socket$", "SOCK"), (r"^accept4?$", "ACC"), (r"^close$", "CLOSE"), (r"^connect$", "CONNECT"), (r"^bind$", "BIND"), (r"^listen$", "LISTEN"),
       (r"^select$", "SELECT"), (r"^poll$", "POLL"), (r"^fcntl$", "FCNTL"), (r"^read$|^recv$", "IO"), (r"^write$|^send$", "IO"), (r"^shutdown$", "SHUT"),
       (r"terminate$", "TERM"), (r"^std::(make_shared|allocate_shared|make_unique)$", "OWN"), (r"^(strncpy|snprintf|strcpy|memcpy|strcat|strncat)$", "COPY"), (r"^(htons|inet_addr|inet_pton|inet_aton|llvm\.bswap.*)$", "ADDR"), (r"KScan", "SCAN"),
       (r"basic_string::(data|c_str)$|std::string::(data|c_str)$", "STRDATA")]
SV0 = gev(SYS, r"\.socketId$|^__errno_location", locks=False)
EFF = lambda x: "none" if re.match(NS + "(build|print)", x.callee or "") else None


def SV(m, x, st, vals, res):
    """events, with the address and the time-out as they are when the kernel is called"""
    e = SV0(m, x, st, vals, res)
    if isinstance(e, Ev) and e[0] == "OWN":
        r = []
        for v in vals:
            try:
                r.append(simp(m.read(st.copy(), v, 4, False)))
            except Exception:
                pass
        return Ev(("OWN", None, tuple(r), res, x.i, None))
    if isinstance(e, Ev) and e[0] in ("BIND", "CONNECT", "SELECT"):
        def rd(p, n):
            try:
                return simp(m.read(st.copy(), p, n, False))
            except Exception:
                return None
        if e[0] == "SELECT":
            v = (rd(vals[4], 8), rd(mkp(vals[4], 8), 8)) if len(vals) > 4 and vals[4] != ("null",) else (None, None)
        else:
            v = tuple(rd(mkp(vals[1], o), n) for o, n in ((0, 2), (2, 2), (4, 4)))
        return (Ev(("MEM", None, v, None, x.i, None)), e)
    return e


NOTHROW = lambda x: False


def unit(c):
    src = c.unity([DIR], open(os.path.join(VERIF, "units", "socket.cpp")).read())
    return src


def prog(c, keep=()):
    return c.program(unit(c), [r"kpsr::socket_mdlw::.*"], keep=[r"kpsr::socket_mdlw::(build|print).*"] + list(keep))


def fid(p):
    return p == "this.socketId"


def ends_of(c, f, **kw):
    c.analysed(f)
    ends, m = walk(f, SV, throws=NOTHROW, effects=EFF, **kw)
    r = []
    for e in ends:
        if e.kind == "stop" or e.x is not None and e.x.op == "unreachable" and not e.evs("TERM"):
            continue
        c.count("paths")
        r.append((e, f.where(e.x) if e.x is not None else f.here()))
    return r, m


def member(m, e, path, default=None):
    """value of a member at the end of the path"""
    st = [z for z in e.ev if z[0] == "ST" and z.p == path]
    if st:
        return simp(st[-1].v[0])
    ld = [z for z in e.ev if z[0] == "LD" and z.p == path]
    return simp(ld[0].r) if ld else default


def initial(e, path):
    for z in e.ev:
        if z[0] == "ST" and z.p == path:
            return None
        if z[0] == "LD" and z.p == path:
            return simp(z.r)
    return None


def invalid(m, st, v):
    v = simp(v)
    return v == ("c", -1) or m.decide(st, cmpv("eq", v, ("c", -1))) is True or (v[0] == "c" and v[1] == 0xffffffff)


# ------------------------------------------------------------------ N01
@prop("N01", "path-sensitive ownership analysis of descriptors, plus compile-time witnesses for copying",
      "Every path of every socket function for every outcome of the kernel calls; allocation failure is not considered.")
def n01(c):
    c.assumption("allocating small objects does not fail")
    p = prog(c)
    seen = set()
    for f in p.all():
        if not f.sq.startswith(NS):
            continue
        n = f.sq[len(NS):]
        cls, _, meth = n.partition("::")
        if cls not in ("BaseSocket", "DataSocket", "ConnectSocket", "ServerSocket") and not any(SV_calls(f)):
            continue
        es, m = ends_of(c, f)
        raw = any(z[0] == "SOCK" for e, _ in es for z in e.ev)
        args = [t for t in f.dem[f.dem.rindex("("):].strip("()").split(",") if t] if "(" in f.dem else []
        move = meth in ("BaseSocket", "operator=", "swap", "DataSocket") and "&" in f.dem[f.dem.rfind("("):]
        for e, w in es:
            cl = e.evs("CLOSE")
            if e.kind == "iter":
                c.ob("closed-at-most-once", n, not cl, w, "a descriptor is closed in a loop")
                continue
            if meth.startswith("~"):
                seen.add("~" + cls)
                a = initial(e, "this.socketId")
                c.ob("destructor-closes", n, len(cl) == 1 and a is not None and simp(cl[0].v[0]) == a or not cl and a is not None and invalid(m, e.st, a), w, "an open descriptor is not closed exactly once by the destructor")
                c.ob("destructor-never-throws", n, e.kind == "ret" and not e.evs("TERM"), w, "the destructor can throw")
                if not cl:
                    continue
                c.ob("closes-only-valid", n, not invalid(m, e.st, a) and m.decide(e.st, cmpv("eq", a, ("c", -1))) is False, w, "an invalid descriptor is closed")
                continue
            if n == "BaseSocket::close":
                seen.add(n)
                a = initial(e, "this.socketId")
                fin = member(m, e, "this.socketId")
                c.ob("closed-at-most-once", n, len(cl) <= 1 and all(simp(z.v[0]) == a for z in cl), w, "a descriptor is closed twice, or another one than the socket's own")
                if not cl:
                    c.ob("close-of-closed-throws", n, e.kind == "throw" and a is not None and invalid(m, e.st, a), w, "close() does not close although the socket is open")
                    continue
                c.ob("closed-means-invalid", n, fin is not None and invalid(m, e.st, fin), w, "the closed descriptor is kept: it will be closed again, when it may belong to someone else")
                bad = failed(m, e.st, cl[0].r, True)
                if e.kind == "ret":
                    c.ob("close-failure-reported", n, bad is False or errnos(m, e.st, e.ev, (4,)) is not None, w, "a failing close looks like success")
                else:
                    c.ob("close-success-silent", n, bad is True, w, "a successful close throws")
                c.ob("closes-only-valid", n, m.decide(e.st, cmpv("eq", a, ("c", -1))) is False, w, "an invalid descriptor is closed")
                continue
            if move and not raw:
                seen.add("move " + n)
                other = next((z.p for z in e.ev if z[0] in ("LD", "ST") and not fid(z.p)), None)
                if other is None:
                    c.ob("ownership-moved", n, False, w, "moving does not look at the other socket")
                    continue
                a, b = initial(e, "this.socketId"), initial(e, other)
                fa, fb = member(m, e, "this.socketId"), member(m, e, other)
                ctor = meth in ("BaseSocket", "DataSocket")
                own = [v for v in (fa, fb) if v is not None and not invalid(m, e.st, v)] + [simp(z.v[0]) for z in cl]
                had = [v for v in (a, b) if v is not None and not invalid(m, e.st, v)]
                c.ob("ownership-moved", n, b is not None and fa == b and e.kind == "ret", w, "the descriptor is not taken over")
                c.ob("one-owner", n, (ctor or a is not None) and sorted(map(repr, own)) == sorted(map(repr, had)), w, "after moving, a descriptor has two owners or none")
                if ctor:
                    c.ob("moved-from-is-invalid", n, fb is not None and invalid(m, e.st, fb), w, "the moved-from socket is not invalid")
                continue
            if meth == "BaseSocket" or meth == "DataSocket":
                v = ("arg", 1)
                bad = m.decide(e.st, cmpv("eq", v, ("c", -1)))
                if e.kind == "ret":
                    seen.add("ctor")
                    c.ob("bad-descriptor-refused", n, bad is False, w, "an object is made from a failed socket call")
                    c.ob("descriptor-stored", n, member(m, e, "this.socketId") == v and not cl, w, "the descriptor is not stored")
                else:
                    c.ob("bad-descriptor-refused", n, bad is True, w, "a valid descriptor is refused")
                continue
            got = [z for z in e.ev if z[0] in ("SOCK", "ACC")]
            kept = [simp(z.v[0]) for z in e.ev if z[0] == "ST" and z.p.endswith(".socketId")]
            kept += [v for z in e.evs("OWN") if "Socket" in (f.insts[z.i].get("dem") or "") for v in z.v]
            for z in got:
                seen.add(z[0] + " " + cls)
                bad = failed(m, e.st, z.r)
                r = simp(z.r)
                mine = [y for y in cl if simp(y.v[0]) == r]
                if e.kind == "ret":
                    c.ob("failure-not-kept", n, bad is False, w, "a failed %s looks like success" % ("socket" if z[0] == "SOCK" else "accept"))
                    c.ob("no-leak", n, not mine and kept.count(r) == 1, w, "the new descriptor is not owned by exactly one socket object")
                elif bad is not True:
                    c.ob("no-leak", n, len(mine) == 1, w, "the new descriptor is %s when the function throws" % ("closed twice" if mine else "leaked"))
                else:
                    c.ob("closes-only-valid", n, not mine, w, "an invalid descriptor is closed")
            if not got:
                c.ob("keeps-descriptor", n, not cl and not [z for z in e.ev if z[0] == "ST" and z.p.endswith(".socketId")], w, "the descriptor is closed or replaced")
            else:
                c.ob("closes-only-own", n, all(any(simp(z.v[0]) == simp(y.r) for y in got) for z in cl), w, "somebody else's descriptor is closed")
    for k in ("BaseSocket::close", "ctor", "~BaseSocket", "move BaseSocket::BaseSocket", "move BaseSocket::operator=", "SOCK ConnectSocket", "SOCK ServerSocket", "ACC ServerSocket"):
        c.ob("covered", k, k in seen, "", "the function was not found or has no normal path")
    hdr = "#include <cerrno>\n#include <type_traits>\n#include <klepsydra/socket_core/connect_socket.h>\n#include <klepsydra/socket_core/server_socket.h>\nusing namespace kpsr::socket_mdlw;\n"
    cs = []
    for t in ("BaseSocket", "DataSocket", "ConnectSocket", "ServerSocket"):
        cs.append((t + " copy", "static_assert(!std::is_copy_constructible<%s>::value && !std::is_copy_assignable<%s>::value, \"\");\n" % (t, t), True, "sockets can be copied: the descriptor then has two owners"))
        if t != "BaseSocket":
            cs.append((t + " move", "static_assert(std::is_nothrow_move_constructible<%s>::value && std::is_move_assignable<%s>::value, \"\");\n" % (t, t), True, "sockets can no longer be moved"))
        cs.append((t + " destructor", "static_assert(std::has_virtual_destructor<%s>::value, \"\");\n" % t, True, "deleting a socket through its base does not close it"))
    witness(c, "type-witness", cs, hdr)


def SV_calls(f):
    for x in f.insts.values():
        if x.op in ("call", "invoke") and any(re.search(a, x.callee or "") and t in ("SOCK", "ACC", "CLOSE") for a, t in SYS):
            yield x


# ------------------------------------------------------------------ N02
@prop("N02", "path-sensitive analysis of kernel call results and their arguments",
      "Every path of the connecting, listening and accepting functions for every outcome of each kernel call.")
def n02(c):
    p = prog(c)
    found = set()
    for f in p.all():
        if not f.sq.startswith(NS):
            continue
        n = f.sq[len(NS):]
        es, m = ends_of(c, f)
        n = n + (" path" if "string" in f.dem[f.dem.rfind("("):] and "int" not in f.dem[f.dem.rfind("("):] else "") if "Socket::" in n else n
        for e, w in es:
            if e.kind == "iter":
                c.ob("no-retry", n, not e.evs("CONNECT", "BIND", "LISTEN"), w, "a connection call is made in a loop")
                continue
            sk = e.evs("SOCK")
            for tag, word in (("CONNECT", "connect"), ("BIND", "bind"), ("LISTEN", "listen")):
                for z in e.evs(tag):
                    found.add(tag)
                    if e.kind == "ret":
                        c.ob("failure-reported", n + " " + word, failed(m, e.st, z.r, True) is False, w, "a failed %s looks like success" % word)
                    own = bool(sk) and simp(z.v[0]) == simp(sk[-1].r)
                    c.ob("own-descriptor", n + " " + word, own, w, "%s is called on another descriptor" % word)
            if sk and e.kind == "ret":
                srv = "Server" in n
                want = ("BIND", "LISTEN") if srv else ("CONNECT",)
                seq = [z[0] for z in e.ev if z[0] in ("BIND", "LISTEN", "CONNECT")]
                c.ob("established", n, tuple(seq) == want, w, "the socket is not %s" % ("bound and then listening" if srv else "connected"))
                z = next((z for z in e.ev if z[0] in ("BIND", "CONNECT")), None)
                if z is not None:
                    found.add(n)
                    address(c, n, f, m, e, z, sk[0], w, srv)
                c.ob("stream-socket", n, sk[0].v[1] == ("c", 1) or sk[0].v[1][0] == "c" and sk[0].v[1][1] & 0xf == 1, w, "not a stream socket")
                if srv:
                    nb = [y for y in e.evs("FCNTL") if y.v[1] == ("c", 4) and len(y.v) > 2 and nonblock(y.v[2])] or sk[0].v[1][0] == "c" and sk[0].v[1][1] & 0o4000
                    c.ob("never-blocks-in-accept", n, bool(nb), w, "the listening socket is blocking: accept can outlast its time-out when the client is gone")
            if n.startswith("ServerSocket::accept"):
                accept(c, n, f, m, e, w, found)
    for k in ("CONNECT", "BIND", "LISTEN", "ACC"):
        c.ob("covered", k, k in found, "", "the kernel call was not found on any path")


def nonblock(v):
    v = simp(v)
    return v[0] == "c" and bool(v[1] & 0o4000) or v[0] == "op" and v[1] == "or" and any(nonblock(a) for a in v[3:5])


def mem(e, z):
    k = e.ev.index(z)
    return e.ev[k - 1].v if k and e.ev[k - 1][0] == "MEM" else (None, None, None)


def address(c, n, f, m, e, z, sk, w, srv):
    dom = sk.v[0]
    un = dom == ("c", 1)
    c.ob("address-family", n, un == ("path" in n) and dom in (("c", 1), ("c", 2)), w, "the socket is not of the family of its address")
    ln = simp(z.v[2])
    if un:
        cp = [y for y in e.ev[:e.ev.index(z)] if y[0] == "COPY" and ptr(y.v[0])[0] == ptr(z.v[1])[0] and ptr(y.v[0])[1] - ptr(z.v[1])[1] == 2]
        c.ob("address-copied", n, len(cp) >= 1, w, "the path is not copied into the address")
        for y in cp:
            k = f.insts[y.i].callee
            b = simp(y.v[1 if k == "snprintf" else 2]) if k != "strcpy" and len(y.v) > 2 else None
            lim = 108 if k == "snprintf" else 107
            c.ob("address-bounded", n, b is not None and b[0] == "c" and 0 < b[1] <= lim, w, "a long path overruns the address, or is not terminated")
        c.ob("address-length", n, ln[0] != "c" or 108 <= ln[1] <= 110, w, "the length of the address is wrong")
        return
    v, pv, av = mem(e, z)
    c.ob("address-family", n, v is None or v[0] != "c" or v == ("c", 2), w, "the address is not of the internet family")
    hs = [y for y in e.evs("ADDR") if re.match("htons|llvm", f.insts[y.i].callee)]
    arg = 1 if srv else 2
    if hs:
        a = simp(hs[-1].v[0])
        okp = pv is not None and pv == simp(hs[-1].r) and based(a, ("arg", arg))
        c.ob("port-in-network-order", n, okp, w, "the port is not the given one in network byte order")
    else:
        c.ob("port-in-network-order", n, pv is None or not (pv == ("arg", arg) or pv[0] == "cast" and pv[3] == ("arg", arg) or pv[0] == "c"), w, "the port is not the given one in network byte order")
    if srv:
        c.ob("listens-everywhere", n, av is None or av[0] != "c" or av[1] == 0, w, "the server listens on a fixed address")
    else:
        ad = [y for y in e.evs("ADDR") if not re.match("htons|llvm", f.insts[y.i].callee)]
        c.ob("host-used", n, bool(ad) and (f.insts[ad[-1].i].callee != "inet_addr" or av == simp(ad[-1].r)), w, "the address is not the one of the host")
    c.ob("address-length", n, ln == ("c", 16), w, "the length of the address is wrong")


def based(v, a):
    return v == a or isinstance(v, tuple) and any(based(x, a) for x in v if isinstance(x, tuple))


def accept(c, n, f, m, e, w, found):
    ac, wt = e.evs("ACC"), e.evs("SELECT", "POLL")
    fd = initial(e, "this.socketId")
    inv = fd is not None and invalid(m, e.st, fd)
    if inv:
        c.ob("closed-socket-refused", n, e.kind == "throw" and not ac and not wt, w, "accepting on a closed socket is tried")
        return
    for z in ac:
        found.add("ACC")
        c.ob("own-descriptor", n, simp(z.v[0]) == fd, w, "the connection is accepted on another descriptor")
        c.ob("waits-first", n, len(wt) == 1 and e.ev.index(wt[0]) < e.ev.index(z), w, "accept is called without waiting for a connection")
        if wt:
            rdy = ready(m, e, wt[0])
            c.ob("accepts-only-when-ready", n, rdy, w, "accept is called although the wait timed out")
    for z in wt:
        if z[0] == "SELECT":
            d = lsum(linv(z.v[0]), linv(fd), -1)
            c.ob("waits-for-own-descriptor", n, d == ({}, 1) or not d[0] and d[1] > 1 or simp(z.v[0])[0] == "c" and simp(z.v[0])[1] >= 1024, w, "select does not look at the socket")
            if fd is not None:
                c.ob("descriptor-fits-select", n, small(m, e.st, fd), w, "a descriptor beyond FD_SETSIZE overruns the set")
            t = z.v[4] if len(z.v) > 4 else None
            sec = mem(e, z)[0]
            c.ob("bounded-wait", n, t is not None and t != ("null",), w, "the wait has no time-out")
            c.ob("waits-timeout", n, sec is not None and isarg(sec), w, "the wait does not use the given time-out")
    if e.kind == "ret":
        c.ob("returns-connection", n, len(ac) == 1, w, "accept returns without a connection")


def isarg(v):
    """an argument, scaled or offset by constants"""
    return v[0] == "arg" or v[0] in ("op", "cast") and any(isarg(a) for a in v[3:] if isinstance(a, tuple))


def small(m, st, fd):
    for k in (cmpv("slt", ("c", 1023), fd), cmpv("sle", ("c", 1024), fd)):
        if m.decide(st, k) is False:
            return True
    return m.decide(st, cmpv("slt", fd, ("c", 1024))) is True or m.decide(st, cmpv("ult", fd, ("c", 1024))) is True


def ready(m, e, z):
    """the path is taken only when the wait reported the descriptor"""
    r = simp(z.r)
    if m.decide(e.st, cmpv("slt", ("c", 0), r)) is True or m.decide(e.st, cmpv("slt", r, ("c", 1))) is False or m.decide(e.st, cmpv("eq", r, ("c", 1))) is True:
        return True
    base = ptr(z.v[1] if z[0] == "SELECT" else z.v[0])[0]
    for k, v in e.st.facts.items():
        if isinstance(k, tuple) and k and k[0] == "cmp" and k[1] == "eq" and ("c", 0) in k[2:] and v is False and reads(k, base):
            return True
    return False


def reads(v, base):
    if isinstance(v, tuple):
        if v and v[0] == "ld" and v[1] == base:
            return True
        return any(reads(x, base) for x in v)
    return False


# ------------------------------------------------------------------ N03
RETRY = (4, 11, 110)
CLOSED = (104, 107)


@prop("N03", "loop analysis of the transfer functions: substitution proof that each turn continues exactly where the last one ended",
      "Holds for every buffer size and every sequence of results of the kernel calls, including errors and partial transfers.")
def n03(c):
    p = prog(c)
    for meth, reading in (("putMessageData", False), ("getMessageData", True)):
        fs = [f for f in p.all() if f.sq == NS + "DataSocket::" + meth and (not reading or "KScan" in f.dem)]
        c.need(fs, "DataSocket::%s was not found" % meth)
        for f in fs:
            transfer(c, f, meth, reading)


def transfer(c, f, n, reading):
    es, m = ends_of(c, f)
    buf, size = ("arg", 1), ("arg", 2)
    word = "read" if reading else "write"
    forms = []      # P - buffer as a linear form of the loop variables, with P, S
    general = {}
    nio = 0
    for e, w in es:
        io = [z for z in e.ev if z[0] == "IO"]
        for z in io:
            nio += 1
            k = f.insts[z.i].callee
            c.ob("right-direction", n, (k in ("read", "recv")) == reading, w, "%s() is used" % k)
            c.ob("own-descriptor", n, z.p is not None and z.p.startswith("this.socketId"), w, "another descriptor is used")
            if k in ("recv", "send"):
                fl = simp(z.v[3])
                c.ob("consumes-data", n, fl[0] == "c" and not fl[1] & 3, w, "the flags keep the data in the socket or send it out of band")
            P, S = linv(z.v[1]), linv(z.v[2])
            forms.append((lsum(P, linv(buf), -1), z.v[1], z.v[2]))
            if e.kind == "iter" and e.phis:
                hv = {simp(o): q for o, q in e.phis.values() if o is not None and q is not None and simp(o)[0] not in ("c", "arg")}
                if set(P[0]) & set(hv) or set(S[0]) & set(hv):
                    general.setdefault(e.header, (P, S, {k: o for k, (o, q) in e.phis.items()}))
    c.ob("transfers", n, nio > 0, f.here(), "nothing is transferred")
    for e, w in es:
        io = [z for z in e.ev if z[0] == "IO"]
        full = tuple(e.pre) + tuple(e.ev)
        loop = any(z[0] == "LOOP" for z in full)
        c.ob("one-transfer-per-turn", n, len(io) <= 1, w, "two transfers without looking at the first")
        if not io:
            if e.kind == "ret":
                c.ob("complete", n, done(m, e, forms, buf, size, reading), w, "the function returns before everything is transferred, or returns a wrong count")
            if e.kind == "throw" and not io and not reading:
                c.ob("throws-only-on-error", n, False, w, "throws without an error")
            if e.kind == "iter":
                c.ob("one-transfer-per-turn", n, not e.phis or all(o == q for o, q in e.phis.values()), w, "a turn without a transfer moves on")
            continue
        z = io[-1]
        bad = failed(m, e.st, z.r)
        P, S = linv(z.v[1]), linv(z.v[2])
        put = linv(z.r)
        if not loop:
            c.ob("starts-at-the-beginning", n, P == linv(buf) and S == linv(size), w, "the first transfer is not of the whole buffer")
        er = errnos(m, e.st, e.ev, RETRY + CLOSED)
        if bad is None:
            c.ob("result-looked-at", n, False, w, "the result of the transfer is not checked")
            continue
        if bad:
            if e.kind == "iter":
                c.ob("retries-only-transient", n, er in RETRY, w, "the transfer is repeated after a permanent error")
            elif e.kind == "ret":
                c.ob("failure-reported", n, reading and er in CLOSED, w, "a failed %s looks like success" % word)
            else:
                c.ob("transient-retried", n, not_transient(m, e), w, "an interrupted or postponed transfer is given up")
        elif e.kind in ("throw", "exc"):
            c.ob("throws-only-on-error", n, False, w, "throws after a successful transfer")
        g = None
        if e.kind == "iter" and e.phis:
            for h, (GP, GS, names) in general.items():
                if h != e.header:
                    continue
                repl = {simp(names[k]): linv(q) for k, (o, q) in e.phis.items() if k in names and q is not None and simp(names[k])[0] not in ("c", "arg")}
                g = (lsub(GP, repl), lsub(GS, repl))
        if e.kind == "iter":
            if g is None:
                c.ob("continues-where-it-ended", n, False, w, "the next transfer does not depend on the last one")
            else:
                want = (P, S) if bad else (lsum(P, put), lsum(S, put, -1))
                # what is left: one less, or the rest of the buffer (position and rest always add up to the buffer)
                okg = g[0] == want[0] and (g[1] == want[1] or lsum(g[0], g[1]) == lsum(linv(buf), linv(size)))
                c.ob("continues-where-it-ended", n, okg, w, "the next transfer does not start where the last one ended" if not bad else "a failed transfer moves the position")
            if reading and not bad:
                sc = [y for y in e.evs("SCAN")]
                c.ob("asks-for-end", n, len(sc) == 1 and m.decide(e.st, cmpv("eq", simp(sc[0].r), ("c", 0))) in (True, None) and lsum(linv(sc[0].v[-1]), linv(buf)) == lsum(P, put), w, "the end of the message is not looked for with the number of bytes read")
                c.ob("end-of-stream-ends", n, positive(m, e.st, z.r), w, "reading goes on after the end of the stream")
        if e.kind == "ret" and reading:
            v = linv(e.val)
            tot = lsum(lsum(P, linv(buf), -1), put if not bad else ({}, 0))
            zero = m.decide(e.st, cmpv("eq", simp(z.r), ("c", 0))) is True
            alt = lsum(P, linv(buf), -1)
            c.ob("returns-count", n, v == tot or zero and v == alt, w, "the returned number is not the number of bytes read")
            sc = e.evs("SCAN")
            if not bad and not zero:
                c.ob("stops-only-at-end", n, at_end(e.st, lsum(S, put, -1)) or bool(sc) and not (m.decide(e.st, simp(sc[-1].r)) is False), w, "reading stops although the buffer is not full and the stream goes on")
        if e.kind == "ret" and not reading and not bad:
            c.ob("complete", n, at_end(e.st, lsum(S, put, -1)), w, "the function returns before everything is written")


def not_transient(m, e):
    ld = [z for z in e.ev if z[0] == "LD" and z.p == "__errno_location()"]
    for k in (4, 11):
        if not any(m.decide(e.st, cmpv("eq", z.r, ("c", k))) is False for z in ld):
            return False
    return True


def positive(m, st, r):
    r = simp(r)
    return m.decide(st, cmpv("eq", r, ("c", 0))) is False or m.decide(st, cmpv("slt", ("c", 0), r)) is True or m.decide(st, cmpv("slt", r, ("c", 1))) is False


def at_end(st, left):
    """the facts of the path say that nothing is left (linear form of what is left)"""
    neg = lsum(({}, 0), left, -1)
    if left == ({}, 0):
        return True
    for k, v in st.facts.items():
        if not (isinstance(k, tuple) and k and k[0] == "cmp") or v not in (True, False):
            continue
        d = lsum(linv(k[2]), linv(k[3]), -1)
        if d not in (left, neg):
            continue
        if k[1] == "eq" and v is True or k[1] == "ne" and v is False:
            return True
        if k[1] in ("ult", "slt") and v is False and d == neg or k[1] in ("ule", "sle") and v is True and d == left:
            return True
    return False


def done(m, e, forms, buf, size, reading):
    v = linv(e.val) if reading else None
    for off, P, S in forms + [(({}, 0), buf, size)]:
        if reading and v != off and v != linv(size):
            continue
        if at_end(e.st, lsum(linv(size), off, -1)) or at_end(e.st, linv(S)):
            return True
    return False


# ------------------------------------------------------------------ N04
PS = [(r"DataSocket::putMessageData$", "PUT"), (r"DataSocket::putMessageClose$", "PUTCLOSE"), (r"DataSocket::getMessageData", "GET"), (r"basic_string::clear$|string::clear$", "CLEAR"),
      (r"basic_string::resize$|string::resize$", "RESIZE"), (r"basic_string::reserve$", "RESERVE"), (r"basic_string::capacity$", "CAP"), (r"basic_string::(size|length)$", "SIZE"),
      (r"basic_string::(operator\[\]|at|data|c_str|front)$", "DATA"), (r"basic_string::(append|operator\+=|push_back|assign|operator=|erase|shrink_to_fit|swap|insert|replace|pop_back)$", "MUT"), (r"^shutdown$", "SHUT")]


@prop("N04", "path-sensitive analysis of the simple protocol against a size model of the message string",
      "Every path of sending and receiving, with any number of turns and any amounts of data.")
def n04(c):
    p = prog(c, [NS + r"DataSocket::.*"])
    ev = gev(PS, locks=False)
    f = p.find(NS + "ProtocolSimple::sendMessage")[0]
    c.analysed(f)
    ends, m = walk(f, ev, throws=lambda x: bool(re.search(r"DataSocket", x.callee or "")))
    msg = ("arg", 1)
    for e in ends:
        if e.kind == "stop":
            continue
        c.count("paths")
        w = f.where(e.x) if e.x is not None else f.here()
        pu, cl = e.evs("PUT"), e.evs("PUTCLOSE")
        if e.kind == "iter":
            c.ob("sends-whole-message", "sendMessage", not pu, w, "the message is sent in pieces")
            continue
        if e.kind == "ret":
            c.ob("sends-whole-message", "sendMessage", len(pu) == 1 and pu[0].p is not None and "_dataSocket" in pu[0].p and any(z[0] == "DATA" and simp(z.r) == simp(pu[0].v[1]) and z.v[0] == msg for z in e.ev) and any(z[0] == "SIZE" and simp(z.r) == simp(pu[0].v[2]) and z.v[0] == msg for z in e.ev), w, "not exactly the message is sent")
            c.ob("ends-message-once", "sendMessage", len(cl) == 1 and pu and e.ev.index(cl[0]) > e.ev.index(pu[0]), w, "the end of the message is not signalled after it")
        else:
            c.ob("ends-message-once", "sendMessage", len(cl) <= 1 and not (cl and not pu), w, "the end of the message is signalled wrongly")
    # end of message
    q = prog(c)
    g = q.find(NS + "DataSocket::putMessageClose")[0]
    es, m = ends_of(c, g)
    for e, w in es:
        sh = e.evs("SHUT")
        c.ob("end-of-message-signalled", "putMessageClose", len(sh) == 1 and sh[0].v[1] == ("c", 1) and sh[0].p is not None and sh[0].p.startswith("this.socketId"), w, "the sending direction is not shut down, or the receiving one is")
        if sh:
            bad = failed(m, e.st, sh[0].r, True)
            c.ob("failure-reported", "putMessageClose", (e.kind == "ret") == (bad is False) and bad is not None, w, "a failed shutdown looks like success")
    receive(c, p, ev)


def receive(c, p, ev):
    f = p.find(NS + "ProtocolSimple::recvMessage")[0]
    c.analysed(f)
    ends, m = walk(f, ev, throws=lambda x: bool(re.search(r"DataSocket", x.callee or "")))
    n = "recvMessage"
    ng = 0
    msg = ("arg", 1)
    gen = {}
    for e in ends:
        for z in e.evs("GET"):
            if e.kind == "iter" and e.phis:
                d = [z2 for z2 in e.ev if z2[0] == "DATA" and simp(z2.r) == ptr(z.v[1])[0]]
                if d:
                    off = lsum(lsum(linv(z.v[1]), linv(d[-1].r), -1), linv(d[-1].v[1]) if len(d[-1].v) > 1 else ({}, 0))
                    hv = {simp(o) for o, q in e.phis.values() if o is not None}
                    if set(off[0]) & hv:
                        gen.setdefault(e.header, (off, {k: o for k, (o, q) in e.phis.items()}))
    for e in ends:
        if e.kind == "stop" or e.x is not None and e.x.op == "unreachable":
            continue
        c.count("paths")
        w = f.where(e.x) if e.x is not None else f.here()
        full = tuple(e.pre) + tuple(e.ev)
        get = e.evs("GET")
        cut = max([k for k, z in enumerate(full) if z[0] == "LOOP"] + [0])
        c.ob("starts-empty", n, any(z[0] == "CLEAR" and z.v[0] == msg for z in full) or any(z[0] == "RESIZE" and z.v[1] == ("c", 0) and z.v[0] == msg for z in full), w, "an old message is not cleared")
        c.ob("one-read-per-turn", n, len(get) <= 1, w, "two reads without looking at the first")
        if not get:
            continue
        ng += 1
        z = get[-1]
        d = [y for y in e.ev[:e.ev.index(z)] if y[0] == "DATA" and simp(y.r) == ptr(z.v[1])[0]]
        c.ob("reads-into-message", n, bool(d) and d[-1].v[0] == msg and "_dataSocket" in (z.p or ""), w, "the data is not read into the message")
        if not d:
            continue
        start = linv(d[-1].v[1]) if len(d[-1].v) > 1 else ({}, 0)
        off = lsum(lsum(linv(z.v[1]), linv(d[-1].r), -1), start)
        # size of the string when the read happens: the last resize
        k = e.ev.index(z)
        sz, cap, epoch = None, {}, 0
        for y in e.ev[:k]:
            if y[0] == "CAP":
                cap[simp(y.r)] = epoch
            elif y[0] == "RESIZE" and y.v[0] == msg:
                sz = simp(y.v[1])
                if cap.get(sz) != epoch:
                    epoch += 1
            elif y[0] in ("RESERVE", "MUT", "CLEAR"):
                epoch += 1
                if y[0] != "RESERVE":
                    sz = None
        lim = lsum(off, linv(z.v[2]))
        ok = False
        if sz is not None:
            # capacities read in the same epoch are equal
            same = {a: (({sz: 1}, 0) if cap.get(a) == cap.get(sz) else ({a: 1}, 0)) for a in cap} if sz in cap else {}
            r = lsum(linv(sz), lsub(lim, same), -1)
            ok = not r[0] and r[1] >= 0
        c.ob("reads-in-bounds", n, ok, w, "more is read than the message has room for")
        got = linv(z.r)
        zero = m.decide(e.st, cmpv("eq", simp(z.r), ("c", 0)))
        pos = lsum(off, got)
        fin = [y for y in e.ev[k:] if y[0] == "RESIZE" and y.v[0] == msg]
        if e.kind == "ret":
            c.ob("reads-to-the-end", n, zero is True, w, "reading stops before the end of the stream")
            v = linv(fin[-1].v[1]) if fin else None
            c.ob("message-is-what-was-read", n, v is not None and (v == pos or v == off), w, "the message is not cut to what was read")
        elif e.kind == "iter":
            c.ob("reads-to-the-end", n, zero is False or zero is None, w, "reading goes on after the end of the stream")
            grow = [y for y in e.ev[k:] if y[0] in ("RESERVE",)] + [y for y in fin if linv(y.v[1]) != pos]
            c.ob("room-for-more", n, bool(grow) and all(grows(y, e) for y in grow), w, "the message does not grow between reads: a full one looks like the end of the stream")
            nxt = None
            for h, (go, names) in gen.items():
                if h == e.header and e.phis:
                    nxt = lsub(go, {simp(names[a]): linv(q) for a, (o, q) in e.phis.items() if a in names and q is not None and simp(names[a])[0] != "c"})
            c.ob("appends", n, nxt == pos, w, "the next part is not appended to what was read before")
            v = linv(fin[-1].v[1]) if fin else None
            c.ob("keeps-what-was-read", n, v is None or v == pos, w, "a part that was read is cut off")
    c.ob("receives", n, ng > 0, f.here(), "nothing is received")


def grows(y, e):
    v = linv(y.v[1])
    d = [lsum(v, linv(z.r), -1) for z in e.evs("CAP", "SIZE")]
    return not any(not a[0] and a[1] <= 0 for a in d)
