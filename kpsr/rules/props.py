"""Configuration values: conversion, property stores and what is copied between them."""
import os
import re

from ..build import VERIF
from ..cont import KEEP, Loops, changes, found, isempty, merged, runs
from ..core import prop
from ..sem import Ev, cmpv, lsum, ptr, simp, truthy, walk
from ..sym import linv, mkp
from .config import UNIT as CUNIT
from .config import stream_state
from .fsm import thr, where
from .mappers import mev

UNIT = os.path.join(VERIF, "units", "properties.cpp")
ELEM = "this._properties{%s}"
SYM = {"unit::Value": "N4unit5ValueE", "int": "i"}


def ways(c, f, ev=None):
    c.analysed(f)
    ends, m = walk(f, ev or mev(), throws=thr, sticky=changes(None))
    ends = [e for e in ends if e.kind != "stop" and not (e.x is not None and e.x.op == "unreachable")]
    c.count("paths", len(ends))
    return Loops(ends, f), ends, m


def bools(t, v):
    v = simp(v)
    return bool(v[1] & 1) if v[0] == "c" else truthy(t.m, t.st, v)


def into(t, v):
    """events that change the object the pointer value v stands for"""
    from ..cont import written
    b, off, var = ptr(simp(v))
    for k, y in enumerate(t.ev):
        qs = [y[2][0]] if y[0] in ("COPY", "STORE") else list(written(t.m, t.fn, y) or ())
        for q in qs:
            if ptr(simp(q))[0] == b and b[0] in ("arg", "al"):
                yield k, y
                break


def came(L, e, y):
    """canonical name of what a copy or store takes its value from"""
    t = L.of(e)
    k = t.at(y)
    if y[0] in ("COPY", "STORE"):
        v = y[2][1]
        if y[0] == "STORE":
            v = simp(v)
            while v[0] in ("ext", "trunc"):
                v = v[1]
            if v[0] != "ld":
                return None, v
            v = mkp(v[1], v[2], v[3])
        return L.desc(e, v, k), v
    if t.is_copy(y):
        return L.desc(e, y[2][1], k), t.origin(y[2][1], k)[0]
    return None, None


# --------------------------------------------------------------- K02: look up and convert
@prop("K02", "path-sensitive analysis of look-up and conversion over string-stream and map models",
      "All paths of getValueOfKey and the converter for int, double, bool, string and a user type; any file contents.")
def k02(c):
    p = c.program(CUNIT, [r".*kpsr::ConfigFile::.*", r".*kpsr::PropertyFileConvert::.*"], libkeep=KEEP)
    fs = p.find("kpsr::ConfigFile::getValueOfKey")
    c.need(len(fs) >= 5, "ConfigFile::getValueOfKey is gone")
    for f in fs:
        T = re.search(r"getValueOfKey<(.*?)>\(std", f.dem)
        T = "string" if T and "basic_string" in T.group(1) else T.group(1) if T else f.dem
        L, ends, m = ways(c, f)
        n = len(f.args)
        kname, dflt = f.argname(n - 2), ("arg", n - 1)
        sret = n > 3
        key = (("ld", kname),)
        elem = "this.contents{%s}" % kname
        for e in ends:
            t = L.of(e)
            w = where(f, e)
            fnd = found(L, e, "this.contents", key)
            if e.kind == "ret":
                c.ob("looks-for-the-key", T, fnd is not None, w, "returns without knowing whether the key is there")
                if fnd is None:
                    continue
                if not fnd:
                    c.ob("default-when-absent", T, result_from(L, e, sret, dflt), w, "something other than the default is returned for a key that is not there")
                    continue
                if T == "string":
                    tx = L.text(e, ("arg", 0))
                    c.ob("text-is-returned-whole", T, tx == (("ld", elem),), w, "the text that is returned is %s" % (tx,))
                    continue
                ex = [y for y in t.ev if extracts(y)]
                c.ob("value-is-extracted", T, bool(ex), w, "the value is not read from the text")
                if not ex:
                    continue
                x = ex[-1]
                S = stream(t, x)
                c.ob("extracted-from-the-entry", T, source(L, e, S, x) == elem, w, "the value is not read from the text of the key's entry")
                c.ob("extracted-once", T, len(ex) == 1, w, "more than one value is read")
                c.ob("success-is-checked", T, stream_state(t, (0, 0, (S,)), after=t.at(x)) is True or okafter(t, x, S), w, "a value is returned without knowing that reading it succeeded")
                c.ob("extracted-value-returned", T, result_from(L, e, sret, simp(x[2][1])), w, "something other than the value that was read is returned")
                late = [y for k, y in into(t, x[2][1]) if k > t.at(x) and not (y[0] == "CALL" and y[1].rpartition("::")[2].startswith("~"))] if not (sret and ptr(simp(x[2][1]))[0] == ("arg", 0)) else []
                c.ob("value-unchanged", T, not late, w, "the value is changed after it was read")
                h = hexed(t, x, S)
                ox = known_hex(L, e, elem)
                c.ob("base-follows-the-text", T, h is not None and ox is not None and h == ox, w, "whether the number is read in base 16 does not follow from the text containing 0x")
            elif e.kind == "throw" or any(y[0] == "THROW" for y in t.mine):
                th = [y for y in t.ev if y[0] == "THROW"]
                if not th:
                    continue
                ex = [y for y in t.ev if extracts(y)]
                c.ob("refuses-with-invalid-argument", T, th[-1][1] == "invalid_argument", w, "throws %s" % th[-1][1])
                c.ob("refuses-only-bad-values", T, fnd is True and bool(ex) and (stream_state(t, (0, 0, (stream(t, ex[-1]),)), after=t.at(ex[-1])) is False or notok(t, ex[-1], stream(t, ex[-1]))), w, "a value is refused that is not known to be malformed")
    for f in p.find("kpsr::ConfigFile::keyExists"):
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            t = L.of(e)
            c.ob("exists-means-found", "keyExists", says_found(L, e, f.argname(1)), where(f, e), "keyExists() is not whether the key is found")


def bare(v):
    """a value without widening, narrowing and the test that makes a bool of a byte"""
    v = simp(v)
    while True:
        if v[0] in ("ext", "trunc", "zext"):
            v = simp(v[1])
        elif v[0] == "cast" and v[1] in ("trunc", "zext", "sext"):
            v = simp(v[3])
        elif v[0] == "cmp" and v[1] == "ne" and v[3] == ("c", 0):
            v = simp(v[2])
        else:
            return v


def says_found(L, e, kname):
    t = L.of(e)
    fnd = found(L, e, "this.contents", (("ld", kname),))
    d = bools(t, e.val)
    if fnd is not None and d is not None:
        return fnd == d
    for y in t.ev:
        if y[0] in ("find", "count") and L.cname(e, y) == "this.contents" and L.text(e, y[2][1], t.at(y)) == (("ld", kname),):
            cs = [cmpv("ne", simp(y[3]), simp(z[3])) for z in t.ev if z[0] == "end" and L.cname(e, z) == "this.contents"] if y[0] == "find" else \
                 [cmpv("ne", simp(y[3]), ("c", 0)), cmpv("ult", ("c", 0), simp(y[3])), cmpv("eq", simp(y[3]), ("c", 1)), cmpv("slt", ("c", 0), simp(y[3]))]
            v = simp(e.val)
            while v[0] in ("ext", "trunc"):
                v = v[1]
            if v in cs:
                return True
    return False


def result_from(L, e, sret, src):
    """is the result the object at src (or what was loaded from it)?"""
    t = L.of(e)
    if sret:
        if ptr(simp(src)) == ptr(("arg", 0)):
            return True
        o = t.origin(("arg", 0))[0]
        return ptr(simp(o)) == ptr(simp(src))
    v = bare(e.val)
    return v[0] == "ld" and ptr(simp(v[1])) == ptr(simp(src)) and v[2] == 0 and not v[3]


def extracts(y):
    """is the event an extraction of a value (not of a manipulator) from a stream?"""
    return y[0] == "CALL" and re.search(r"operator>>$", y[1]) and len(y[2]) > 1 and simp(y[2][1])[0] not in ("f", "c")


def stream(t, y):
    """the stream an extraction works on, seen through the references that extractions return"""
    v = simp(y[2][0])
    for _ in range(6):
        b = ptr(v)[0]
        if b[0] != "call":
            return b
        g = [q for q in t.ev if q[0] == "CALL" and q[2] and q[3] is not None and simp(q[3]) == b and re.search(r"operator>>$|::(setf|unsetf|setbase|clear)$|^std::(hex|dec|oct)$", q[1])]
        if not g:
            return b
        v = simp(g[-1][2][0])
    return ptr(v)[0]


def source(L, e, S, x):
    """name of the text the stream reads"""
    t = L.of(e)
    r = None
    for y in t.ev[:t.at(x)]:
        if y[0] != "CALL" or not y[2] or ptr(simp(y[2][0]))[0] != S:
            continue
        if re.search(r"basic_(i|)stringstream::basic_\1?stringstream$", y[1]) and len(y[2]) > 1:
            r = L.desc(e, y[2][1], t.at(y)) if ptr(simp(y[2][1]))[0][0] != "c" else None
        elif y[1].endswith("stringstream::str") and len(y[2]) > 1:
            r = L.desc(e, y[2][1], t.at(y))
        elif re.search(r"::(seekg|ignore|get|unget|putback|read|getline|rdbuf)$", y[1]):
            r = None
    return r


def rets(t, x, S):
    """values of the state queries made after the extraction: (value says good?, value)"""
    for z in t.ev[t.at(x):]:
        if z[0] != "CALL" or z[3] is None or not z[2]:
            continue
        k = re.search(r"::(operator bool|operator!|fail|good)$", z[1])
        if not k:
            continue
        b = ptr(simp(z[2][0]))[0]
        # a reference to the virtual base of the stream that the extraction returned
        root, seen = b, 0
        while root[0] in ("ld", "call", "p") and seen < 8:
            seen += 1
            if root[0] == "call":
                g = [q for q in t.ev if q[0] == "CALL" and q[2] and q[3] is not None and simp(q[3]) == root]
                if not g:
                    break
                root = ptr(simp(g[-1][2][0]))[0]
            else:
                root = ptr(simp(root[1]))[0]
        if root == S:
            d = truthy(t.m, t.st, z[3])
            if d is not None:
                yield d if k.group(1) in ("operator bool", "good") else not d


def okafter(t, x, S):
    r = list(rets(t, x, S))
    return bool(r) and all(r)


def notok(t, x, S):
    r = list(rets(t, x, S))
    return bool(r) and not any(r)


def hexed(t, x, S):
    """is the extraction made in base 16?  None: cannot tell"""
    r = False
    for y in t.ev[:t.at(x)]:
        if y[0] != "CALL" or not y[2] or ptr(simp(y[2][0]))[0] != S and stream(t, y) != S:
            continue
        if re.search(r"operator>>$", y[1]) and len(y[2]) > 1:
            a = simp(y[2][1])
            if a[0] == "f":
                r = True if a[1] == "_ZSt3hexRSt8ios_base" else False if a[1] == "_ZSt3decRSt8ios_base" else r if a[1].startswith("_ZSt2wsI") else None
        elif re.search(r"^std::(hex|dec|oct)$", y[1]):
            r = True if y[1].endswith("hex") else False if y[1].endswith("dec") else None
        elif re.search(r"ios_base::setf$", y[1]):
            a = [simp(q) for q in y[2][1:]]
            r = True if a and a[0] == ("c", 8) and len(a) > 1 and a[1] == ("c", 74) else None
        elif re.search(r"ios_base::(flags|unsetf)$|setbase", y[1]):
            r = None
    return r


def known_hex(L, e, elem):
    """does the path know whether 0x occurs in the text?"""
    t = L.of(e)
    r = None
    for y in t.ev:
        if y[0] == "s.find" and t.literal(y, 1) == "0x" and L.desc(e, y[2][0], t.at(y)) == elem:
            if len(y[2]) > 2 and simp(y[2][2]) != ("c", 0):
                continue
            d = t.m.decide(t.st, cmpv("eq", simp(y[3]), ("c", -1)))
            r = r if d is None else not d
    return r


# --------------------------------------------------------------- K03: property stores
def same_type(L, e, elem, T):
    """does the path know whether the stored property is of the type?"""
    t = L.of(e)
    r = None
    for y in t.ev:
        if y[0] != "CALL" or y[3] is None:
            continue
        if re.search(r"type_index::operator(==|!=)$", y[1]) or re.search(r"^std::operator(==|!=)$", y[1]):
            k = t.at(y)
            ns = [L.desc(e, q, k) for q in y[2][:2]]
            if elem + "->+8" not in ns:
                continue
            o = y[2][1 - ns.index(elem + "->+8")]
            if not typeid_of(t, o, k, T):
                continue
            d = truthy(t.m, t.st, y[3])
            r = r if d is None else d if y[1].endswith("==") else not d
    for y, q in casts(L, e, elem, T):
        d = t.m.decide(t.st, cmpv("eq", simp(q), ("null",)))
        r = r if d is None else not d
    return r


def casts(L, e, elem, T):
    """(event, pointer) of every cast of the stored property to the property of the type"""
    t = L.of(e)
    for y in t.ev:
        if y[0] == "CALL" and y[1] == "__dynamic_cast" and cast_to(y, T) and L.desc(e, y[2][0], t.at(y)) == elem + "->":
            yield y, y[3]
        elif y[0] == "CALL" and y[1] == "std::dynamic_pointer_cast" and len(y[2]) > 1 and re.search(r"dynamic_pointer_cast<(const )?kpsr::Property<%s>" % re.escape(T), t.fn.insts[y[4]].get("q") or "") and L.desc(e, y[2][1], t.at(y)) == elem:
            # the pointer in the result: whatever was read out of it
            seen = {q for k in getattr(t.st, "facts", {}) if k[0] == "cmp" for q in k[2:4]} | {simp(u[1]) if simp(u)[0] == "ld" else ptr(simp(u))[0] for z in t.ev[t.at(y):] for u in z[2]}
            for q in seen:
                if q[0] == "ld" and q[2] == 0 and not q[3] and t.same(q[1], y[2][0]):
                    yield y, q


def typeid_of(t, v, k, T):
    for j in range(k - 1, -1, -1):
        y = t.ev[j]
        if y[0] == "CALL" and y[1] == "std::type_index::type_index" and len(y[2]) > 1 and t.same(y[2][0], v):
            a = simp(y[2][1])
            return a[0] == "g" and a[1] == "_ZTI" + SYM[T]
    return False


def cast_to(y, T):
    a = simp(y[2][2]) if len(y[2]) > 2 else ("?",)
    return a[0] == "g" and a[1].startswith("_ZTIN4kpsr8PropertyI" + SYM[T])


def impossible(L, e, elem, T):
    """a property that says it is of the type and is not, or a stored pointer that is null (the stores never hold one)"""
    t = L.of(e)
    if any(ptr(simp(q))[0] == ("null",) and ptr(simp(q))[1] for y in t.ev for q in y[2]) and same_type(L, e, elem, T) is True:
        return True
    for k, d in getattr(t.st, "facts", {}).items():
        if d is True and k[:2] == ("cmp", "eq") and ("null",) in k[2:4] and any(q[0] == "ld" and L.desc(e, q, len(t.ev)) == elem + "->" for q in k[2:4]):
            return True
    ty = [y for y in t.ev if y[0] == "CALL" and re.search(r"type_index::operator(==|!=)$|^std::operator(==|!=)$", y[1]) and y[3] is not None]
    for y, q in casts(L, e, elem, T):
        if t.m.decide(t.st, cmpv("eq", simp(q), ("null",))) is True:
            for z in ty:
                d = truthy(t.m, t.st, z[3])
                if d is (z[1].endswith("==")):
                    return True
    return False


def held(L, e, elem, T, y):
    """does the copy take the value out of the stored property (seen as what it is)?"""
    t = L.of(e)
    n, v = came(L, e, y)
    if n in (elem + "->.value", elem + ".value"):
        return True
    if v is None:
        return False
    for u in (v, y[2][1]):
        b, off, var = ptr(simp(u))
        if not var and off == 16 and (L.desc(e, b, t.at(y)) == elem + "->" or any(simp(q) == b for z, q in casts(L, e, elem, T))):
            return True
    return False


def holds_arg(L, e, v, k, n, T):
    """is the shared pointer at v a new property made of argument n before event k?"""
    t = L.of(e)
    o, k = t.origin(v, k)
    for j in range(k - 1, -1, -1):
        y = t.ev[j]
        if y[0] == "CALL" and y[1] in ("std::make_shared", "std::allocate_shared") and t.same(y[2][0], o):
            q = t.fn.insts[y[4]].get("q") or ""
            return len(y[2]) > 1 and ptr(t.origin(y[2][-1], j)[0]) == ptr(("arg", n)) and re.search(r"<kpsr::Property<%s>" % re.escape(T), q) is not None
        if y[0] == "p.ctor" and t.same(y[2][0], o) and len(y[2]) == 2 and ptr(simp(y[2][1]))[0][0] == "call":
            b = ptr(simp(y[2][1]))[0]
            return valued(t, mkp(b, 16, ()), j, n)
        if y[0] in ("p.reset",) and t.same(y[2][0], o) and len(y[2]) == 2:
            b = ptr(simp(y[2][1]))[0]
            return valued(t, mkp(b, 16, ()), j, n)
        if t.writes(y, o):
            return False
    return False


def valued(t, v, k, n):
    """is the value object at v, before event k, argument n?"""
    o, j = t.origin(v, k)
    if ptr(o) == ptr(("arg", n)):
        return True
    for i in range(j - 1, -1, -1):
        y = t.ev[i]
        if y[0] in ("STORE", "COPY") and ptr(simp(y[2][0])) == ptr(o):
            q = simp(y[2][1])
            while q[0] in ("ext", "trunc"):
                q = q[1]
            if y[0] == "COPY":
                return ptr(q) == ptr(("arg", n))
            return q[0] == "ld" and ptr(simp(q[1])) == ptr(("arg", n)) and q[2] == 0
    return False


def second(t, y):
    """what the path knows about the success of an insertion"""
    return truthy(t.m, t.st, ("ext", ("fld", simp(y[3]), (1,), 8), 0, 1)) if y[3] is not None else None


def succeeded(t, y):
    for q in (("ext", ("fld", simp(y[3]), (1,), 8), 0, 1), ("fld", simp(y[3]), (1,), 8)):
        d = truthy(t.m, t.st, q)
        if d is not None:
            return d
    return None


def is_second(v, y):
    v = simp(v)
    while v[0] in ("ext", "trunc", "zext"):
        v = v[1]
    return v == ("fld", simp(y[3]), (1,), 8)


def inserts(L, e, cname="this._properties"):
    t = L.of(e)
    return [y for y in t.mine if y[0] in ("insert", "assign-key", "mapat") and L.cname(e, y) == cname]


MUT = ("erase", "clear", "swap", "assign", "extract", "merge")


@prop("K03", "path-sensitive value-flow analysis of the property stores over map, shared-pointer and type-index models",
      "All paths of get, set and copy of both stores for a class type and int; any contents.")
def k03(c):
    p = c.program(UNIT, [r".*kpsr::DynamicConfigurationProperties::.*", r".*kpsr::ConfigurationProperties<.*", r".*kpsr::Property<.*>::Property.*", r".*kpsr::getFullKey.*"], libkeep=KEEP)
    for cls, dyn in (("kpsr::DynamicConfigurationProperties", True), ("kpsr::ConfigurationProperties", False)):
        for f in need(c, p, cls + "::getProperty"):
            getter(c, f, dyn, typ(f))
        for f in need(c, p, cls + "::setProperty"):
            setter(c, f, dyn, typ(f))
        for f in need(c, p, cls + "::copyFrom", 1):
            copier(c, f, dyn)
    for f in need(c, p, "kpsr::Property::Property"):
        T = re.search(r"Property<(int|unit::Value)>", f.dem)
        if not T or re.search(r"Property\((kpsr|kpsr::Property<.*>) ?(const)?&|Property&&", f.dem):
            continue
        L, ends, m = ways(c, f)
        T = T.group(1)
        for e in ends:
            if e.kind != "ret":
                continue
            t = L.of(e)
            w = where(f, e)
            ok = any(y[0] == "CALL" and y[1] == "std::type_index::type_index" and typeid_of(t, y[2][0], t.at(y) + 1, T) for y in t.ev)
            c.ob("property-knows-its-type", T, ok, w, "the property is not marked with the type of its value")
            if len(f.args) > 1:
                c.ob("property-holds-its-value", T, valued(t, mkp(("arg", "this"), 16, ()), len(t.ev), 1), w, "the property does not hold the value it was made of")
    for f in need(c, p, "kpsr::getFullKey", 1):
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind == "ret":
                key, root = f.argname(1), f.argname(2)
                tx = L.text(e, ("arg", 0))
                c.ob("full-key", "getFullKey", tx == full(L, e, root, (("ld", key),)), where(f, e), "the full key is %s" % (tx,))


def full(L, e, root, key):
    em = isempty(L, e, root)
    return None if em is None else merged(key) if em else merged((("ld", root), ("lit", "/")) + key)


def need(c, p, q, n=2):
    fs = p.find(q)
    c.need(len(fs) >= n, "%s is gone" % q)
    return fs


def typ(f):
    return "int" if re.search(r"Propert(y|ies)<int>", f.dem) else "unit::Value"


def getter(c, f, dyn, T):
    L, ends, m = ways(c, f)
    kname = f.argname(1)
    elem = ELEM % kname
    name = ("dynamic " if dyn else "") + T
    for e in ends:
        if e.kind != "ret" or dyn and impossible(L, e, elem, T):
            continue
        t = L.of(e)
        w = where(f, e)
        fnd = found(L, e, "this._properties", (("ld", kname),))
        st = same_type(L, e, elem, T) if dyn and fnd else True
        wr = [y for k, y in into(t, ("arg", 2))]
        r = bools(t, e.val)
        if r is None and fnd is not None:
            v = simp(e.val)
            r = fnd if any(v == cmpv("ne", simp(y[3]), simp(z[3])) for y in t.ev if y[0] == "find" for z in t.ev if z[0] == "end") else None
        hit = None if fnd is None else fnd and st
        c.ob("look-up-decides", name, hit is not None and r is not None, w, "answers without knowing whether the property is there" + (" and of the type" if dyn else ""))
        if hit is None or r is None:
            continue
        c.ob("reports-presence", name, r == hit, w, "reports %s for a property that is %s" % ("success" if r else "failure", "there" if hit else "not there or of another type"))
        if hit:
            c.ob("value-handed-out", name, bool(wr) and held(L, e, elem, T, wr[-1]), w, "the value that is handed out is not the stored one")
        else:
            c.ob("target-untouched-on-failure", name, not wr, w, "the target is changed although there is no such property")


def setter(c, f, dyn, T):
    L, ends, m = ways(c, f)
    kname = f.argname(1)
    elem = ELEM % kname
    key = (("ld", kname),)
    name = ("dynamic " if dyn else "") + T
    for e in ends:
        if e.kind != "ret" or dyn and impossible(L, e, elem, T):
            continue
        t = L.of(e)
        w = where(f, e)
        fnd = found(L, e, "this._properties", key)
        ins = inserts(L, e)
        for y in ins:
            c.ob("stored-under-its-name", name, L.text(e, y[2][1], t.at(y)) == key, f.where(f.insts[y[4]]), "the property is stored under another name")
            if fnd is None and y[0] == "insert":
                d = succeeded(t, y)
                fnd = None if d is None else not d
        st = same_type(L, e, elem, T) if dyn and fnd else True
        refuse = dyn and fnd and st is False
        bad = [y for y in t.mine if y[0] in MUT and L.cname(e, y) == "this._properties"]
        r = bools(t, e.val)
        if r is None and ins and ins[-1][0] == "insert" and is_second(e.val, ins[-1]):
            r = True if fnd is False else None
        done = stored(L, e, dyn, T, key, elem, fnd, ins)
        inplace = dyn and [y for y in t.mine if in_place(L, e, y, elem, T)]
        for y in inplace or []:
            c.ob("other-stores-unaffected", name, False, f.where(f.insts[y[4]]), "the stored property is changed in place, and stores it was copied to change with it")
        if dyn:
            c.ob("other-stores-unaffected", name, not inplace, w, "the stored property is changed in place, and stores it was copied to change with it")
        changed = done or any(writes_elem(L, e, y, elem) for y in t.mine)
        if dyn:
            c.ob("type-decides", name, fnd is not None and st is not None, w, "the property is changed without knowing what is stored")
        if refuse:
            c.ob("type-is-kept", name, not changed and not ins and not bad, w, "a property of another type is replaced")
            c.ob("refusal-reported", name, r is False, w, "success is reported although the property was refused")
        elif fnd is not None and (st or not fnd):
            c.ob("value-is-stored", name, done, w, "the property does not have the new value afterwards")
            c.ob("success-reported", name, r is True, w, "success is not reported")
        elif fnd is None:
            c.ob("value-is-stored", name, done, w, "it is not known that the property has the new value afterwards")
            c.ob("success-reported", name, r is True, w, "success is not reported")
        c.ob("other-properties-kept", name, not bad, w, "other properties are dropped")


def writes_elem(L, e, y, elem):
    t = L.of(e)
    if y[0] in ("p.assign", "p.reset", "STORE", "COPY") or y[0] == "CALL" and t.is_copy(y):
        return (L.desc(e, y[2][0], t.at(y)) or "").startswith(elem)
    return False


def stored(L, e, dyn, T, key, elem, fnd, ins):
    """does the entry hold the new value on this path?"""
    t = L.of(e)
    for y in reversed(t.mine):
        k = t.at(y)
        if y[0] == "insert" and y in ins:
            ok = pair_ok(L, e, y, dyn, T, key)
            s = succeeded(t, y)
            if ok and (s is True or fnd is False):
                return True
            continue
        if y[0] == "assign-key" and y in ins:
            v = y[2][2] if len(y[2]) > 2 else None
            return v is not None and (holds_arg(L, e, v, k, 2, T) if dyn else valued(t, shifted(v, 16), k, 2))
        if y[0] in ("p.assign", "p.ctor") and dyn and on_entry(L, e, y[2][0], k, elem, key):
            return holds_arg(L, e, y[2][1], k, 2, T)
        if not dyn and on_entry(L, e, y[2][0] if y[2] else None, k, elem, key, 16) and (y[0] in ("STORE", "COPY") or t.is_copy(y)):
            return valued(t, y[2][0], k + 1, 2)
        if dyn and in_place(L, e, y, elem, T):
                return valued(t, y[2][0], k + 1, 2)
    return False


def in_place(L, e, y, elem, T):
    """does the event write the value of the property object that is already stored?"""
    t = L.of(e)
    k = t.at(y)
    if y[0] in ("STORE", "COPY") or y[0] == "CALL" and t.is_copy(y):
        b, off, var = ptr(simp(y[2][0]))
        if off == 16 and not var:
            return L.desc(e, b, k) == elem + "->" or any(simp(q) == b for z, q in casts(L, e, elem, T))
    return False


def shifted(v, d):
    b, off, var = ptr(simp(v))
    return mkp(b, off + d, var)


def on_entry(L, e, v, k, elem, key, plus=0):
    """is v the mapped value (plus an offset) of the entry of the key?"""
    if v is None:
        return False
    t = L.of(e)
    b, off, var = ptr(simp(v))
    if (L.desc(e, shifted(v, -plus), k) or "").split("._vptr")[0] == elem and b[0] in ("call", "ld"):
        return True
    # the entry looked up or made by its key
    for y in t.ev[:k]:
        if y[0] in ("mapat", "mapget") and y[3] is not None and simp(y[3]) == b and off == plus and not var:
            return L.text(e, y[2][1], t.at(y)) == key
    # the iterator an insertion returned
    for y in t.ev[:k]:
        if y[0] == "insert" and y[3] is not None and b == ("fld", simp(y[3]), (0,), 64) and off == 64 + plus and not var:
            return L.text(e, y[2][1], t.at(y)) == key
    return False


def pair_ok(L, e, y, dyn, T, key):
    t = L.of(e)
    k = t.at(y)
    if L.text(e, y[2][1], k) != key:
        return False
    if len(y[2]) == 2:
        return holds_arg(L, e, shifted(y[2][1], 32), k, 2, T) if dyn else valued(t, shifted(y[2][1], 48), k, 2)
    v = y[2][2]
    return holds_arg(L, e, v, k, 2, T) if dyn else valued(t, shifted(v, 16), k, 2) or valued(t, v, k, 2)


def copier(c, f, dyn, other="other._properties", mine="this._properties"):
    L, ends, m = ways(c, f, None)
    oname = f.argname(1)
    other = oname + "._properties"
    prefix = f.argname(2)
    name = "dynamic copyFrom" if dyn else "copyFrom " + typ(f)
    for e in ends:
        t = L.of(e)
        w = where(f, e)
        ins = inserts(L, e)
        cur = L.current
        if e.kind == "ret":
            c.ob("every-property-visited", name, bool(runs(L, e, other)), w, "not every property is copied")
            if not dyn:
                c.ob("result-tells-conflicts", name, tells(L, e, lambda q: full(L, q, prefix, (("ld", other + "[*].first"),))), w, "the result does not tell whether every property was copied")
        if e.kind == "iter":
            cs = [q for q in L.cur.values() if q.cont == other and q.header == e.header]
            if not cs:
                continue
            there = known_there(L, e, ins, full(L, e, prefix, (("ld", other + "[*].first"),)))
            c.ob("one-entry-per-property", name, len(ins) == (0 if there is True else 1), w, "a property is not copied exactly once")
            for y in ins:
                k = t.at(y)
                w2 = f.where(f.insts[y[4]])
                tx = L.text(e, y[2][1], k)
                c.ob("copied-under-full-key", name, tx == full(L, e, prefix, (("ld", other + "[*].first"),)), w2, "a property is copied under the key %s" % (tx,))
                src = shifted(y[2][1], 32) if len(y[2]) == 2 else y[2][2]
                if dyn:
                    ok = L.desc(e, src, k) == other + "[*].second"
                else:
                    v = shifted(src, 16)
                    o, j = t.origin(v, k)
                    ok = L.desc(e, v, k) == other + "[*].second.value" or L.desc(e, src, k) == other + "[*].second" or any(z[0] in ("STORE", "COPY") and ptr(simp(z[2][0])) == ptr(o) and (came(L, e, z)[0] or "").startswith(other + "[*].second") for z in t.ev[:k])
                c.ob("copied-with-its-value", name, ok, w2, "a property is copied with another value")
                c.ob("existing-properties-kept", name, y[0] == "insert" or there is False, w2, "a property that is already there is replaced")
        for y in t.mine:
            if y[0] in MUT and L.cname(e, y) in (mine, other):
                c.ob("nothing-dropped", name, False, f.where(f.insts[y[4]]), "properties are dropped")


def known_there(L, e, ins, key):
    """does the path know, from a search for the full key, whether the property was there before?"""
    t = L.of(e)
    if key is None:
        return None
    k = t.at(ins[0]) if ins else len(t.ev)
    for y in t.mine:
        if y[0] in ("find", "count") and t.at(y) < k and L.cname(e, y) == "this._properties" and L.text(e, y[2][1], t.at(y)) == key:
            return found(L, e, "this._properties", key, k)
    return None


def tells(L, e, keyof=None):
    """is the result true exactly if no insertion failed?"""
    t = L.of(e)
    v = simp(e.val)
    flag = None
    for (e2) in L.ends:
        if e2.kind != "iter" or not e2.phis:
            continue
        t2 = L.of(e2)
        ins = inserts(L, e2)
        there = known_there(L, e2, ins, keyof(e2)) if keyof else None
        if not ins and there is None:
            continue
        d = succeeded(t2, ins[-1]) if there is None else not there
        good = set()
        for i, (old, new) in e2.phis.items():
            if old is None or new is None or (e2.header, i) in L.cur:
                continue
            if d is False and bools(t2, new) is False:
                good.add(i)
            elif d is False and not [q for q in (lsum(linv(new), linv(old), -1),) if q[0] or not 0 < q[1] < 1 << 31]:
                good.add(i)  # one more failure
            elif d is True and (simp(new) == simp(old) or bools(t2, old) is not None and bools(t2, new) == bools(t2, old)):
                good.add(i)
            elif d is None and (anded(new, old, ins[-1]) or bools(t2, old) is True and is_second(new, ins[-1]) or bools(t2, old) is False and bools(t2, new) is False):
                good.add(i)
        flag = good if flag is None else flag & good
    if not flag:
        return False
    for i in flag:
        cur = t.st.env.get(i)
        if cur is None:
            continue
        if v in (cmpv("eq", simp(cur), ("c", 0)), cmpv("sle", simp(cur), ("c", 0))):
            return True
        n = linv(cur)
        if not n[0] and n[1] == 0 and bools(t, v) is True and counts(L, i):
            return True
        if counts(L, i):
            continue
        a, b = bools(t, cur), bools(t, v)
        if simp(cur) == v or a is not None and a == b or same_bit(cur, v):
            return True
    return False


def counts(L, i):
    """is the variable a number of failures?"""
    for e in L.ends:
        if e.kind == "iter" and i in (e.phis or {}):
            old, new = e.phis[i]
            if old is not None and new is not None:
                d = lsum(linv(new), linv(old), -1)
                if not d[0] and 0 < d[1] < 1 << 31:
                    return True
    return False


def same_bit(a, b):
    def core(v):
        v = simp(v)
        while v[0] in ("ext", "trunc", "zext"):
            v = v[1]
        return v
    return core(a) == core(b)


def anded(new, old, y):
    s = str(new)
    v = simp(new)
    while v[0] in ("ext", "trunc", "zext"):
        v = v[1]
    if v[0] == "op" and v[1] in ("and",):
        a = [simp(q) for q in v[2:4]]
        return any(is_second(q, y) for q in a) and any(same_bit(q, old) for q in a)
    return False
