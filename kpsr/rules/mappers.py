"""Serialisation: byte images, identity copies, cereal archives, headers that live together."""
import itertools
import os
import re
import subprocess

from ..build import CLANG, VERIF, REPO, flags, par
from ..cont import KEEP, Loops, cev
from ..core import prop
from ..sem import Ev, cmpv, lsum, ptr, simp, truthy, walk
from ..sym import linv, mkp, tw
from ..ir import AnalysisBroken

UNIT = os.path.join(VERIF, "units", "mappers.cpp")
DIR = "serialization/modules/serialization/include/klepsydra/serialization"
SIZES = (("unit::Pod", 24), ("unit::Byte", 1), ("double", 8)) + tuple(("unit::Bytes<%d>" % n, n) for n in
    (2, 3, 4, 5, 6, 7, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 4097, 65535, 65536, 65537))
VEC = "std::vector<unsigned char"


def mev():
    """containers, calls, and every raw copy of memory: ("COPY", -, (to, from, length))"""
    base = cev()

    def ev(m, x, st, vals, res):
        if x.op in ("call", "invoke"):
            q = x.callee or ""
            if q.startswith("llvm.memcpy") or q.startswith("llvm.memmove"):
                return Ev(("COPY", None, tuple(simp(v) for v in vals[:3]), None, x.i, None))
            if q == "__cxa_begin_catch":
                return Ev(("CATCH", None, (), None, x.i, None))
        if x.op == "store":
            return Ev(("STORE", None, (simp(vals[1]), simp(vals[0]), ("c", (tw(x.get("vty")) + 7) // 8)), None, x.i, None))
        return base(m, x, st, vals, res)
    ev.again = base.again
    return ev


def mprog(c, d="CEREAL", cls=None):
    # with a class: its virtual calls on this object go to that very class
    return c.program(UNIT, [r".*kpsr::Mapper<.*"], keep=[r"^([a-z]+ )?unit::"], defs=[d], libkeep=KEEP + [r"^cereal::"], dyn=(cls, r"^kpsr::Mapper::") if cls else None)


def mapper(c, p, a, b, name):
    fs = [f for f in p.fns.values() if f.sq == "kpsr::Mapper::" + name and re.search(r"kpsr::Mapper<%s, %s" % (re.escape(a), re.escape(b)), f.dem)]
    c.need(fs, "Mapper<%s, %s>::%s is gone" % (a, b, name))
    return fs[0]


def width(f, y):
    if y[0] == "COPY":
        n = y[2][2]
        return n[1] if n[0] == "c" else None
    return y[2][2][1]


def src(t, y, depth=6):
    """pointer the bytes of a raw copy come from (through local copies)"""
    if y[0] == "COPY":
        r = y[2][1]
    else:
        v = y[2][1]
        r = mkp(v[1], v[2], v[3]) if v[0] == "ld" else None
    if r is None or depth <= 0:
        return r
    b, off, var = ptr(simp(r))
    n = width(t.fn, y)
    if b[0] != "al" or var or n is None:
        return r
    for j in range(t.at(y) - 1, -1, -1):
        z = t.ev[j]
        if z[0] in ("COPY", "STORE"):
            zb, zo, zv = ptr(simp(z[2][0]))
            if zb != b:
                continue
            zn = width(t.fn, z)
            if zv or zn is None:
                return r
            if zo <= off and off + n <= zo + zn:
                q = src(t, z, depth - 1)
                if q is None:
                    return r
                qb, qo, qv = ptr(simp(q))
                return mkp(qb, qo + off - zo, qv)
            if zo < off + n and off < zo + zn:
                return r
        elif any(ptr(simp(q))[0] == b for q in writes(t, t.fn, z)):
            return r
    return r


def is_data(t, v, name, k):
    """is v a pointer into the bytes of the vector name? -> offset"""
    b, off, var = ptr(v)
    if var:
        return None
    for y in t.ev[:k]:
        if y[0] in ("data", "begin", "at", "front") and y[3] is not None and simp(y[3]) == b and t.name(y[2][0]).lstrip("&") == name:
            if y[0] == "at":
                i = simp(y[2][1])
                return off + i[1] if i[0] == "c" else None
            return off
    # begin() returned by value: an iterator object
    return None


def is_arg(v, f, n):
    b, off, var = ptr(v)
    return off if b == ("arg", n) and not var else None


def cover(ranges, n):
    at = 0
    for a, b in sorted(ranges):
        if a > at:
            return False
        at = max(at, b)
    return at >= n


@prop("Z01", "path-sensitive byte-coverage analysis of the byte mapper over container models",
      "All paths of both directions for 32 event layouts (multi-word, builtin, and bytes of sizes from 1 to 65537 around the powers of two); any message length.")
def z01(c):
    p = mprog(c, "BYTES")
    for T, n in SIZES:
        f = mapper(c, p, T, VEC, "fromMiddleware")
        c.analysed(f)
        ends, m = walk(f, mev())
        L = Loops(ends, f)
        msg = f.argname(1)
        for e in ends:
            t = L.of(e)
            w = f.where(e.x) if e.x is not None else f.here()
            sizes = [y for y in t.ev if y[0] in ("size", "empty") and t.name(y[2][0]).lstrip("&") == msg]
            got, ok = [], True
            for k, y in enumerate(t.ev):
                if y[0] not in ("COPY", "STORE"):
                    continue
                to = is_arg(y[2][0], f, 2)
                s = src(t, y)
                so = is_data(t, s, msg, k) if s is not None else None
                ln = width(f, y)
                w2 = f.where(f.insts[y[4]])
                if so is not None:
                    c.ob("reads-inside-message", T, ln is not None and any(inside(t, z, so + ln) for z in sizes), w2, "%s bytes of the message are read without knowing that it is that long" % (ln if ln is not None else "some"))
                if to is not None:
                    c.ob("same-bytes", T, so is not None and so == to and ln is not None, w2, "a byte of the event does not come from the same byte of the message")
                    c.ob("writes-inside-event", T, ln is not None and to + ln <= n, w2, "bytes behind the event are written")
                    if so == to and ln is not None:
                        got.append((to, to + ln))
            if e.kind == "throw" and any(y[0] == "THROW" for y in t.ev):
                c.ob("refused-only-when-short", T, any(shorter(t, z, n) for z in sizes), w, "a message that is long enough is refused")
            if e.kind == "ret":
                c.ob("event-filled", T, cover(got, n), w, "fromMiddleware() returns without having filled the event")
            for y in t.mine:
                c.ob("message-kept", T, not any(t.name(q).lstrip("&") == msg and ptr(simp(q))[0] == ("arg", 1) for q in writes(t, f, y)), f.where(f.insts[y[4]]), "the message is changed by reading it")
        f = mapper(c, p, T, VEC, "toMiddleware")
        c.analysed(f)
        ends, m = walk(f, mev())
        L = Loops(ends, f)
        for e in ends:
            if e.kind not in ("ret",):
                continue
            t = L.of(e)
            w = f.where(e.x)
            r = bytes_of(c, t, ("arg", 2), len(t.ev))
            c.ob("message-is-image", T, r is not None and is_arg(r[0], f, 1) == 0 and r[1] == n, w, "the message is not the %d bytes of the event" % n if r is None or not isinstance(r[1], int) else "the message is %s bytes from offset %s of the event, which has %d" % (r[1], is_arg(r[0], f, 1), n))


def writes(t, f, y):
    from ..cont import written
    if y[0] in ("COPY", "STORE"):
        return [y[2][0]]
    return list(written(t.m, f, y))


def shorter(t, z, n):
    """does the path know that the size asked by event z is below n?"""
    r = simp(z[3])
    if z[0] == "empty":
        return truthy(t.m, t.st, r) is True
    d = lambda q: t.m.decide(t.st, q)
    return d(cmpv("ult", r, ("c", n))) is True or d(cmpv("eq", r, ("c", 0))) is True


def inside(t, z, n):
    """does the path know that the size asked by event z is at least n?"""
    r = simp(z[3])
    if z[0] == "empty":
        return n == 1 and truthy(t.m, t.st, r) is False
    d = lambda q: t.m.decide(t.st, q)
    return d(cmpv("ult", r, ("c", n))) is False or d(cmpv("eq", r, ("c", n))) is True or n == 1 and d(cmpv("eq", r, ("c", 0))) is False


def bytes_of(c, t, v, k, depth=6):
    """(pointer, length) of the memory a byte vector was filled from before event k"""
    if depth <= 0:
        return None
    n = None
    for j in range(k - 1, -1, -1):
        y = t.ev[j]
        if y[0] in ("COPY", "STORE"):
            o = data_of(t, y[2][0], v, j)
            if o is None:
                continue
            s = src(t, y)
            ln = width(t.fn, y)
            sz = length_of(t, v, j)
            if o == 0 and s is not None and ln is not None and sz == ln:
                return s, ln
            return None
        if y[0] == "LOOP" and t.is_carried(y, v):
            return None
        if not y[2] or not any(t.same(q, v) for q in y[2]):
            continue
        first = t.same(y[2][0], v)
        if y[0] in ("ctor", "assign") and first:
            a = [simp(q) for q in y[2][1:]]
            if not a:
                return None
            if len(a) >= 2 and isptr(t, y, 1) and isptr(t, y, 2):
                d = lsum(linv(a[1]), linv(a[0]), -1)
                return (a[0], d[1]) if not d[0] else None
            if isptr(t, y, 1):
                return bytes_of(c, t, a[0], j, depth - 1)
            return None
        if y[0] == "insert-at" and first and len(y[2]) >= 4:
            if length_of(t, v, j) != 0:
                return None
            a = [simp(q) for q in y[2][2:4]]
            d = lsum(linv(a[1]), linv(a[0]), -1)
            return (a[0], d[1]) if not d[0] else None
        if y[0] == "swap":
            return bytes_of(c, t, y[2][1] if first else y[2][0], j, depth - 1)
        if y[0] in ("clear", "resize", "push", "pop", "erase") and first:
            return None
        if y[0] == "CALL" and t.writes(y, v):
            return None
    return None


def isptr(t, y, k):
    v = simp(y[2][k]) if len(y[2]) > k else None
    return v is not None and v[0] in ("p", "arg", "al", "call", "ld", "g")


def data_of(t, q, v, k):
    b, off, var = ptr(q)
    if var:
        return None
    for y in t.ev[:k]:
        if y[0] in ("data", "begin", "front", "at") and y[3] is not None and simp(y[3]) == b and t.same(y[2][0], v):
            if y[0] == "at" and simp(y[2][1]) != ("c", 0):
                return None
            return off
    return None


def length_of(t, v, k):
    """constant length of a vector before event k"""
    for j in range(k - 1, -1, -1):
        y = t.ev[j]
        if not y[2] or not t.same(y[2][0], v):
            continue
        if y[0] == "clear":
            return 0
        if y[0] in ("resize", "ctor", "assign"):
            if len(y[2]) == 1:
                return 0
            a = simp(y[2][1])
            if a[0] == "c":
                return a[1]
            return 0 if y[0] == "ctor" and len(y[2]) == 2 and not isptr(t, y, 1) else None
        if y[0] in ("push", "pop", "insert-at", "erase"):
            return None
    return None


@prop("Z02", "path-sensitive effect analysis of the identity mapper, with the event type's own copying opaque and with plain data",
      "All paths of both directions for a class with user-defined copying and for plain data.")
def z02(c):
    for T in ("unit::Rich", "unit::Pod"):
        p = mprog(c, "IDENTITY", r"kpsr::Mapper<%s, %s>" % (T, T))
        for name, frm, to in (("fromMiddleware", 1, 2), ("toMiddleware", 1, 2)):
            f = mapper(c, p, T, T, name)
            c.analysed(f)
            ends, m = walk(f, mev())
            L = Loops(ends, f)
            for e in ends:
                t = L.of(e)
                w = f.where(e.x) if e.x is not None else f.here()
                got, last = [], None
                for y in t.ev:
                    w2 = f.where(f.insts[y[4]]) if y[4] is not None else w
                    if y[0] in ("COPY", "STORE"):
                        d, s = is_arg(y[2][0], f, to), src(t, y)
                        so = is_arg(s, f, frm) if s is not None else None
                        if d is not None:
                            c.ob("copied-to-same-place", T, so == d and width(f, y) is not None, w2, "a byte of the target does not come from the same byte of the source")
                            if so == d and width(f, y) is not None:
                                got.append((d, d + width(f, y)))
                        c.ob("source-kept", T, is_arg(y[2][0], f, frm) is None, w2, "the source is written")
                    elif y[0] == "CALL":
                        a = [simp(q) for q in y[2]]
                        for q in writes(t, f, y):
                            c.ob("source-kept", T, ptr(simp(q))[0] != ("arg", frm), w2, "the source is passed on as changeable")
                        if y[1] == "unit::Rich::operator=":
                            if is_arg(a[0], f, to) == 0:
                                last = a[1]
                if e.kind == "ret" and e.m.decide(e.st, cmpv("eq", ("arg", frm), ("arg", to))) is True:
                    continue    # the target is the source
                if e.kind == "ret":
                    if T == "unit::Pod":
                        c.ob("whole-event-copied", T, cover(got, 17), w, "%s() does not copy the whole event" % name)
                    else:
                        c.ob("whole-event-copied", T, last is not None and from_arg(t, last, frm), w, "%s() does not assign the source to the target" % name)


def from_arg(t, v, n):
    v = simp(v)
    for _ in range(4):
        if v == ("arg", n):
            return True
        s = [y for y in t.ev if y[0] == "CALL" and re.search(r"unit::Rich::(Rich|operator=)$", y[1]) and len(y[2]) > 1 and simp(y[2][0]) == v]
        if not s:
            return False
        v = simp(s[-1][2][1])
    return False


STREAM = r"^std::(__cxx11::)?basic_(i|o|io)?(string)?stream::basic_"


@prop("Z03", "path-sensitive typestate analysis of streams and archives in the text and binary mappers",
      "All paths, exceptional ones included, of both directions; the archives and the user's serialize() are trusted.")
def z03(c):
    p = mprog(c)
    res = {}
    for b, kind in (("std::basic_streambuf", "binary"), ("std::__cxx11::basic_string", "text")):
        for name in ("fromMiddleware", "toMiddleware"):
            f = mapper(c, p, "unit::Rich", b, name)
            c.analysed(f)
            out = name == "toMiddleware"
            ends, m = walk(f, mev())
            L = Loops(ends, f)
            ev_arg, msg_arg = (1, 2) if out else (2, 1)
            for e in ends:
                t = L.of(e)
                w = f.where(e.x) if e.x is not None else f.here()
                inst = kind + " " + name
                ops = [y for y in t.ev if y[0] == "CALL" and re.search(r"^cereal::(Input|Output)Archive::operator\(\)$", y[1])]
                ctor = [y for y in t.ev if y[0] == "CALL" and re.match(r"^cereal::(\w+)(In|Out)putArchive::\1(In|Out)putArchive$", y[1])]
                dtor = [y for y in t.ev if y[0] == "CALL" and re.match(r"^cereal::\w*(In|Out)putArchive::~", y[1])]
                caught = any(y[0] == "CATCH" for y in t.ev)
                if e.kind != "ret":
                    continue
                c.ob("failures-reported", inst, not caught, w, "a failure of the archive is swallowed")
                if caught:
                    continue
                side = "Output" if out else "Input"
                c.ob("event-passed-once", inst, len(ops) == 1 and len(ctor) == 1 and ("::%sArchive" % side) in ops[0][1], w, "the event does not go through exactly one %s archive" % side.lower())
                if len(ops) != 1 or len(ctor) != 1:
                    continue
                k = re.match(r"^cereal::(\w+)%sArchive" % side, ctor[0][1])
                c.ob("event-passed-once", inst, k is not None and simp(ops[0][2][0]) == simp(ctor[0][2][0]), w, "another archive is used")
                nv = nvp(t, ops[0])
                c.ob("event-passed-once", inst, nv is not None and nv[1] == ("arg", ev_arg), f.where(f.insts[ops[0][4]]), "something other than the event is passed to the archive")
                res.setdefault(kind, {})[name] = (k.group(1) if k else None, nv[0] if nv else None, f.where(f.insts[ctor[0][4]]))
                prec(c, t, f, inst)
                sv = simp(ctor[0][2][1])
                sc = [y for y in t.ev if y[0] == "CALL" and re.search(STREAM, y[1]) and y[2] and base(y[2][0]) == base(sv)]
                c.ob("fresh-stream", inst, len(sc) == 1 and base(sv)[0] == "al" and t.at(sc[0]) < t.at(ctor[0]), w, "the archive works on a stream that is left from another message")
                if kind == "binary":
                    ok = len(sc) == 1 and t.at(sc[0]) < t.at(ctor[0]) and len(sc[0][2]) > 1 and holds(sc[0][2][1], msg_arg)
                    c.ob("works-on-the-message", inst, ok, w, "the archive does not work on the message's buffer")
                elif not out:
                    put = [y for y in t.ev[:t.at(ctor[0])] if y[0] == "CALL" and y[2] and base(y[2][0]) == base(sv) and len(y[2]) > 1 and (re.search(r"stringstream::str$|stringbuf::str$", y[1]) or y in sc) and t.origin(y[2][1], t.at(y))[0] == ("arg", msg_arg)]
                    c.ob("works-on-the-message", inst, len(put) >= 1, w, "the archive does not read the message")
                else:
                    tx = L.text(e, ("arg", msg_arg))
                    ok = len(tx) == 1 and tx[0][0] == "ret" and re.search(r"string(stream|buf)::str$", tx[0][1])
                    gets = [y for y in t.ev if y[0] == "CALL" and re.search(r"string(stream|buf)::str$", y[1]) and len(y[2]) == 2]
                    c.ob("works-on-the-message", inst, bool(ok) and len(gets) >= 1 and all(base(y[2][1]) == base(sv) for y in gets[-1:]), w, "the message is not what the archive has written")
                    ds = [y for y in dtor if base(y[2][0]) == base(ctor[0][2][0])]
                    c.ob("archive-closed-before-reading", inst, bool(gets) and bool(ds) and t.at(ds[0]) < t.at(gets[-1]), f.where(f.insts[gets[-1][4]]) if gets else w, "the text is taken before the archive is finished")
                ds = [y for y in dtor if base(y[2][0]) == base(ctor[0][2][0])]
                c.ob("archive-closed", inst, bool(ds) and t.at(ds[0]) > t.at(ops[0]), w, "the archive is not finished when %s() returns" % name)
    for kind, r in res.items():
        a, b = r.get("fromMiddleware"), r.get("toMiddleware")
        if a and b:
            c.ob("same-format", kind, a[0] == b[0], a[2], "written as %s but read as %s" % (b[0], a[0]))
            c.ob("same-name", kind, a[1] == b[1], a[2], "written under the name %s but read as %s" % (b[1], a[1]))


def base(v):
    return ptr(simp(v))[0]


def holds(v, n):
    """the pointer stored in the argument"""
    v = simp(v)
    return v[0] == "ld" and simp(v[1]) == ("arg", n) and v[2] == 0


def nvp(t, op):
    """(name, event) that is handed to the archive"""
    a = simp(op[2][1]) if len(op[2]) > 1 else None
    if a is None or len(op[2]) != 2:
        return None
    if a[0] == "arg":
        return None, a
    mk = [y for y in t.ev[:t.at(op)] if y[0] == "CALL" and y[1] in ("cereal::make_nvp", "cereal::NameValuePair::NameValuePair")]
    if len(mk) != 1:
        return None
    y = mk[0]
    o = 0 if y[1].endswith("make_nvp") else 1
    return t.literal(y, o), simp(y[2][o + 1])


def prec(c, t, f, inst):
    for y in t.ev:
        if y[0] == "CALL" and re.search(r"Options::Options$", y[1]) and len(y[2]) > 1:
            q = simp(y[2][1])
            c.ob("no-precision-lost", inst, q[0] != "c" or q[1] >= 17, f.where(f.insts[y[4]]), "numbers are written with %s digits" % (q[1],))


HEADS = {
    "identity_mapper.h": ("W", "W"),
    "void_caster_mapper.h": ("W", "std::vector<unsigned char>"),
    "binary_cereal_mapper.h": ("W", "std::basic_streambuf<char> *"),
    "json_cereal_mapper.h": ("W", "std::string"),
}
W = """struct W { int a; template<class A> void serialize(A &ar) { ar(a); } };
"""


def witness(hs, sub=None):
    s = "".join("#include <klepsydra/serialization/%s>\n" % h for h in hs) + W
    for h in hs:
        T, M = HEADS[h]
        s += """namespace { namespace n%d {
using M = kpsr::Mapper<%s, %s>;
using Msg = %s;
static_assert(!__is_abstract(M), "usable");
inline void both(M &m, const Msg &in, W &out, const W &event, Msg &message) { m.fromMiddleware(in, out); m.toMiddleware(event, message); }
} }
""" % (sorted(HEADS).index(h), T, M, M)
    return s


@prop("Z04", "compile-time witnesses: translation units with the mapper headers in every order, static assertions on the selected mapper",
      "Every mapper header alone and every ordered pair.")
def z04(c):
    for h in HEADS:
        c.need(os.path.exists(os.path.join(REPO, DIR, h)), "%s is gone" % h)
    jobs = [(h,) for h in sorted(HEADS)] + list(itertools.permutations(sorted(HEADS), 2))

    def job(hs):
        p = os.path.join(c.ws.dir, "z04_%s.cpp" % "_".join(h[:4] for h in hs))
        with open(p, "w") as f:
            f.write(witness(hs))
        r = subprocess.run([CLANG] + flags() + ["-fsyntax-only", p], capture_output=True, text=True)
        return hs, r.returncode, r.stderr
    for hs, rc, err in par([lambda hs=hs: job(hs) for hs in jobs]):
        c.count("translation units")
        d = re.search(r"([^\s:]+):(\d+):\d+: (?:fatal )?error: (.*)", err)
        inst = " then ".join(hs)
        w = "%s/%s" % (DIR, hs[-1])
        c.ob("usable-together" if len(hs) > 1 else "usable-alone", inst, rc == 0, w, "after %s: %s" % (inst, d.group(3) if d else err[:200]))
