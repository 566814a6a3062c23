"""Environments, archives of properties, and plain event records."""
import os
import itertools
import re

from ..build import VERIF, REPO
from ..cont import KEEP, Loops, changes, runs
from ..core import prop
from ..sem import cmpv, ptr, simp, truthy, walk
from ..sym import linv, mkp
from .fsm import thr, where
from .mappers import mev
from .props import bare, bools, came, into, shifted, ways

CE = "kpsr::ConfigurationEnvironment::"
PE = "kpsr::PropertyFileEnvironment::"
CORE = "core/modules/core/src/"
KINDS = ("String", "Int", "Float", "Bool")


def one(c, p, q, n=1):
    fs = p.find(q)
    c.need(len(fs) >= n, "%s is gone" % q)
    return fs


def calls(t, rx):
    return [y for y in t.ev if y[0] == "CALL" and re.search(rx, y[1])]


# --------------------------------------------------------------- K04
@prop("K04", "path-sensitive analysis of both environments over interfaces of the stores below them",
      "All paths of getters, setters, loading and copying; stores and archives may refuse or throw at every call.")
def k04(c):
    p = c.program(REPO + "/" + CORE + "configuration_environment.cpp", [r".*kpsr::ConfigurationEnvironment::.*"], keep=[r".*kpsr::getFullKey.*", r".*kpsr::ConfigurationProperties<.*>::.*", r"void spdlog::.*", r"spdlog::.*", r".*kpsr::ConfigurationEnvironment::(copyFrom|serialize).*"], libkeep=KEEP + [r"^cereal::"])
    stores = {}
    for kind in KINDS:
        for what in ("get", "set"):
            f = one(c, p, CE + "%sProperty%s" % (what, kind))[0]
            L, ends, m = ways(c, f)
            name = what + kind
            key = ("ret", "kpsr::getFullKey", (f.argname(1), f.argname(len(f.args) - 1)))
            for e in ends:
                if e.kind != "ret":
                    continue
                t = L.of(e)
                w = where(f, e)
                st = calls(t, r"kpsr::ConfigurationProperties::%sProperty$" % what)
                c.ob("asks-one-store", name, len(st) == 1, w, "the property is not looked up or stored exactly once")
                if len(st) != 1:
                    continue
                y = st[0]
                k = t.at(y)
                stores.setdefault(kind, set()).add((what, L.desc(e, y[2][0], k).split("._vptr")[0]))
                tx = L.text(e, y[2][1], k)
                c.ob("uses-the-full-key", name, tx == (key,), w, "the key that is used is %s" % (tx,))
                c.ob("passes-the-value", name, ptr(t.origin(y[2][2], k)[0]) == ptr(("arg", 2)), w, "another value is passed")
                if what == "set":
                    continue
                got = bools(t, y[3])
                c.ob("reports-presence", name, bare(e.val) == simp(y[3]) or got is not None and bools(t, e.val) == got, w, "the result is not whether the property is there")
                wr = [z for k2, z in into(t, ("arg", 2)) if k2 > k]
                c.ob("presence-is-known", name, got is not None, w, "returns without looking at whether the property is there")
                if got:
                    c.ob("value-kept", name, not wr, w, "the value that was found is replaced")
                elif got is False:
                    c.ob("default-when-absent", name, bool(wr) and from_arg(t, L, e, wr[-1], 3), w, "the value of an absent property is not the default")
    for kind, s in stores.items():
        c.ob("same-store", kind, len({b for a, b in s}) == 1, CORE + "configuration_environment.cpp", "values are set and looked up in different places: %s" % sorted(s))
    members = {next(iter(s))[1] for s in stores.values()}
    for f in one(c, p, CE + "copyFrom"):
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            t = L.of(e)
            w = where(f, e)
            ys = calls(t, r"kpsr::ConfigurationProperties::copyFrom$")
            to = [L.desc(e, y[2][0], t.at(y)).split("._vptr")[0] for y in ys]
            frm = [L.desc(e, y[2][1], t.at(y)).split("._vptr")[0] for y in ys]
            c.ob("copies-every-kind", "copyFrom", set(to) == members and len(to) == len(members), w, "not every kind of property is copied: %s" % sorted(to))
            c.ob("copies-like-to-like", "copyFrom", all(a.partition(".")[2] == b.partition(".")[2] and b.startswith(f.argname(1)) for a, b in zip(to, frm)), w, "properties of one kind are copied to another")
            c.ob("copies-below-the-root", "copyFrom", all(ptr(t.origin(y[2][2], t.at(y))[0]) == ptr(("arg", 2)) for y in ys), w, "the root node is not used")
            c.ob("result-tells-conflicts", "copyFrom", conjunction(t, e.val, [y[3] for y in ys]), w, "the result does not tell whether every property was copied")
    for f in one(c, p, CE + "ConfigurationEnvironment", 2):
        if len(f.args) < 3:
            continue
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            t = L.of(e)
            w = where(f, e)
            se = calls(t, r"ConfigurationEnvironment::serialize$")
            cp = calls(t, r"ConfigurationEnvironment::copyFrom$")
            ok = len(se) == 1 and len(calls(t, r"JSONInputArchive::JSONInputArchive$")) == 1
            c.ob("reads-everything", "construction", ok, w, "the file is not read once")
            mine = bool(cp) and ptr(simp(cp[0][2][0]))[0] == ("arg", "this")
            ok = len(cp) == 1 and mine and ok and ptr(t.origin(cp[0][2][1], t.at(cp[0]))[0])[0] == ptr(simp(se[0][2][0]))[0]
            c.ob("takes-over-what-was-read", "construction", ok, w, "what was read from the file is not taken over")
            ok = ok and ptr(t.origin(cp[0][2][2], t.at(cp[0]))[0]) == ptr(("arg", 2))
            c.ob("copies-below-the-root", "construction", ok, w, "the properties of the file are not put below the root node")
    for q in ("loadFile", "updateConfiguration"):
        for f in one(c, p, CE + q):
            L, ends, m = ways(c, f)
            for e in ends:
                t = L.of(e)
                w = where(f, e)
                se = calls(t, r"ConfigurationEnvironment::serialize$")
                op = calls(t, r"JSONInputArchive::JSONInputArchive$")
                cp = calls(t, r"ConfigurationEnvironment::copyFrom$")
                caught = [y for y in t.ev if y[0] == "CATCH"]
                if e.kind != "ret":
                    continue
                r = bools(t, e.val)
                if caught:
                    c.ob("failure-reported", q, r is False, w, "a file that cannot be read is reported as loaded")
                    # a copy that itself throws is not a broken file; one in the handler, or before the reading has succeeded, is
                    late = [y for y in cp if t.at(y) > t.at(caught[0]) or not se or any(t.at(z) > t.at(y) for z in se + op)]
                    c.ob("failure-changes-nothing", q, not late, w, "what was read of a broken file is taken over")
                else:
                    c.ob("reads-everything", q, len(op) == 1 and len(se) == 1, w, "the content is not read once")
                    if q == "loadFile":
                        ok = len(cp) == 1 and ptr(simp(cp[0][2][0]))[0] == ("arg", "this") and se and ptr(t.origin(cp[0][2][1], t.at(cp[0]))[0])[0] == ptr(simp(se[0][2][0]))[0] and ptr(t.origin(cp[0][2][2], t.at(cp[0]))[0]) == ptr(("arg", 2))
                        c.ob("takes-over-what-was-read", q, ok, w, "what was read is not copied below the node")
                        c.ob("reports-conflicts", q, bool(cp) and (bare(e.val) == simp(cp[0][3]) or bools(t, cp[0][3]) is not None and bools(t, cp[0][3]) == r), w, "the result is not that of copying")
                    else:
                        c.ob("success-reported", q, r is True, w, "success is not reported")
                        c.ob("takes-over-what-was-read", q, bool(se) and ptr(simp(se[0][2][0]))[0] == ("arg", "this"), w, "the content is read into something else")
                if q == "loadFile":
                    c.ob("reads-aside", q, all(ptr(simp(y[2][0]))[0] != ("arg", "this") for y in se), w, "a file that turns out broken has already changed the configuration")
    p2 = c.program(REPO + "/" + CORE + "configuration_environment.cpp", [r".*kpsr::ConfigurationEnvironment::serialize.*"], keep=[r".*kpsr::ConfigurationProperties<.*>::.*", r"void spdlog::.*", r"spdlog::.*"], libkeep=KEEP + [r"^cereal::"])
    for f in one(c, p2, CE + "serialize", 2):
        L, ends, m = ways(c, f)
        arch = {}
        for e in ends:
            if e.kind == "ret":
                t = L.of(e)
                a = [q for y in calls(t, r"^cereal::(Out|In)putArchive::operator\(\)$") for q in archived(L, e, y)]
                got = [v.split("._vptr")[0] for n, v in a]
                if not any(y[0] == "CATCH" for y in t.ev):
                    c.ob("archives-every-kind", "serialize", set(got) == members and len(got) == len(members), where(f, e), "not every kind of property is in the archive: %s" % sorted(got))
                    c.ob("kinds-have-own-names", "serialize", len({n for n, v in a}) == len(a) and None not in {n for n, v in a}, where(f, e), "two kinds have the same name in the archive")
                made = {L.desc(e, y[2][-1], t.at(y)).split("._vptr")[0] for y in calls(t, r"^cereal::make_nvp$")} | set(got)
                c.ob("missing-kind-keeps-others", "serialize", made >= members, where(f, e), "after one kind is missing the others are not read: only %s" % sorted(made))
    p = c.program(REPO + "/" + CORE + "prop_file_environment.cpp", [r".*kpsr::PropertyFileEnvironment::.*"], keep=[r".*kpsr::ConfigFile::.*"], libkeep=KEEP)
    for kind in KINDS:
        f = one(c, p, PE + "getProperty" + kind)[0]
        L, ends, m = ways(c, f)
        for e in ends:
            if e.kind != "ret":
                continue
            t = L.of(e)
            w = where(f, e)
            st = calls(t, r"kpsr::ConfigFile::getValueOfKey$")
            sret = kind == "String"
            ok = len(st) == 1
            c.ob("asks-the-file", "file " + kind, ok, w, "the value is not looked up exactly once")
            if not ok:
                continue
            y = st[0]
            a = y[2][1:] if sret else y[2]
            k = t.at(y)
            ks = [ptr(t.origin(q, k)[0]) for q in a]
            c.ob("asks-for-the-key", "file " + kind, ptr(("arg", 1)) in ks, w, "another key is looked up")
            c.ob("passes-the-default", "file " + kind, defaulted(t, L, e, a[-1], k, 3), w, "the default is not passed on")
            wr = [z for k2, z in into(t, ("arg", 2)) if k2 > k]
            ok = len(wr) >= 1 and (simp(wr[-1][2][1]) == simp(y[3]) if wr[-1][0] == "STORE" and y[3] is not None else simp(wr[-1][2][1])[0] == "ext" and simp(y[3]) == bare(wr[-1][2][1]) if wr[-1][0] == "STORE" else ptr(t.origin(wr[-1][2][1], t.at(wr[-1]))[0]) == ptr(simp(y[2][0])) or ptr(simp(wr[-1][2][1])) == ptr(simp(y[2][0])))
            ok = ok or bool(wr) and y[3] is not None and bare(wr[-1][2][1]) == simp(y[3])
            ok = ok or sret and ptr(simp(y[2][0])) == ptr(("arg", 2))
            c.ob("value-handed-out", "file " + kind, ok, w, "something other than the value of the file is handed out")


def conjunction(t, val, leaves):
    """is the value true exactly if every leaf is (for every assignment the path admits)?"""
    ls = [simp(v) for v in leaves]

    def ev(v, env):
        v = bare(v)
        if v in env:
            return env[v]
        if v[0] == "c":
            return bool(v[1] & 1)
        if v[0] == "op" and v[1] in ("and", "or", "xor") and len(v) == 5:
            a, b = ev(v[3], env), ev(v[4], env)
            if v[1] == "and":
                return False if False in (a, b) else None if None in (a, b) else True
            if v[1] == "or":
                return True if True in (a, b) else None if None in (a, b) else False
            return None if None in (a, b) else a != b
        if v[0] == "cmp" and v[1] in ("eq", "ne") and bare(v[3])[0] == "c" and bare(v[3])[1] in (0, 1):
            a = ev(v[2], env)
            return None if a is None else (a == bool(bare(v[3])[1])) == (v[1] == "eq")
        return None
    some = False
    for bits in itertools.product((False, True), repeat=len(ls)):
        env = dict(zip(ls, bits))
        known = [(ev(k, env), x) for k, x in t.st.facts.items() if isinstance(k, tuple) and isinstance(x, bool)]
        if any(g is not None and g != x for g, x in known):
            continue
        some = True
        if ev(val, env) is not all(bits):
            return False
    return some


def from_arg(t, L, e, y, n):
    """does the write take its value from argument n?"""
    if y[0] == "STORE":
        v = bare(y[2][1])
        return v == ("arg", n) or v[0] == "ld" and ptr(simp(v[1])) == ptr(("arg", n)) or v[0] == "ld" and stored_arg(t, v[1], n)
    if y[0] == "COPY":
        return ptr(simp(y[2][1])) == ptr(("arg", n)) or stored_arg(t, y[2][1], n)
    return len(y[2]) > 1 and ptr(t.origin(y[2][1], t.at(y))[0]) == ptr(("arg", n))


def stored_arg(t, v, n):
    for z in t.ev:
        if z[0] == "STORE" and ptr(simp(z[2][0])) == ptr(simp(v)):
            return bare(z[2][1]) == ("arg", n)
    return False


def defaulted(t, L, e, v, k, n):
    return ptr(t.origin(v, k)[0]) == ptr(("arg", n)) or stored_arg(t, v, n)


def archived(L, e, y):
    """(name, object) pairs an archive call is given"""
    t = L.of(e)
    k = t.at(y)
    out = []
    for q in y[2][1:]:
        nv = None
        for z in t.ev[:k]:
            if z[0] == "STORE" and t.same(z[2][0], q) and simp(z[2][1])[0] == "fld":
                for g in t.ev[:k]:
                    if g[0] == "CALL" and g[1] in ("cereal::make_nvp", "cereal::make_optional_nvp") and g[3] is not None and simp(g[3]) == simp(z[2][1])[1]:
                        n = t.literal(g, 0)
                        nv = (n if n is not None else L.desc(e, g[2][0], t.at(g)), L.desc(e, g[2][-1], t.at(g)))
        out.append(nv or (None, L.desc(e, q, k)))
    return out


# --------------------------------------------------------------- K05
AUNIT = os.path.join(VERIF, "units", "archives.cpp")


@prop("K05", "path-sensitive analysis of archive functions over cereal and map models",
      "All paths of the text-archive functions for both map kinds, properties and the ZMQ environment record; any contents.")
def k05(c):
    p = c.program(AUNIT, [r".*cereal::(save|load|serialize)<.*", r".*kpsr::(Property|ConfigurationProperties)<.*>::serialize.*", r".*kpsr::DynamicConfigurationProperties::serialize.*", r".*kpsr::Property<.*>::load_and_construct.*"], libkeep=KEEP + [r"^cereal::"])
    ns = {"save": 0, "load": 0, "serialize": 0}
    for f in p.fns.values():
        if not f.here().startswith("core/"):
            continue
        k = re.match(r"cereal::(save|load)$", f.sq)
        if k and k.group(1) == "save":
            saver(c, f)
            ns["save"] += 1
        elif k:
            loader(c, f)
            ns["load"] += 1
        elif f.sq.endswith("serialize"):
            whole(c, f, p)
            ns["serialize"] += 1
    c.need(ns["save"] >= 2 and ns["load"] >= 2 and ns["serialize"] >= 6, "the archive functions are gone: %s" % ns)


def archive_calls(t, arg=0):
    return [y for y in t.ev if y[0] == "CALL" and re.search(r"^cereal::(Out|In)putArchive::operator(\(\)|<<|>>|&)$", y[1]) and ptr(simp(y[2][0]))[0] == ("arg", arg)]


def saver(c, f):
    L, ends, m = ways(c, f)
    mp = f.argname(1)
    name = "save " + ("Property" if "kpsr::Property<" in f.dem else "value")
    for e in ends:
        t = L.of(e)
        w = where(f, e)
        if e.kind == "ret":
            c.ob("every-entry-written", name, bool(runs(L, e, mp)), w, "not every entry is written")
        if e.kind == "iter":
            mine = set(map(id, t.mine))
            ys = [y for y in archive_calls(t) if id(y) in mine]
            ar = [q for y in ys for q in archived(L, e, y)]
            ok = len(ar) == 1 and ar[0][0] == mp + "[*].first" and ar[0][1] in (mp + "[*].second", mp + "[*].second.value")
            c.ob("entry-under-its-key", name, ok, w, "an entry is not written once under its key: %s" % ar)


def loader(c, f):
    L, ends, m = ways(c, f)
    mp = f.argname(1)
    name = "load " + ("Property" if "kpsr::Property<" in f.dem else "value")
    # a name that is asked for at the end of the previous round
    carriers = None
    for e in ends:
        if e.kind == "iter":
            t = L.of(e)
            got = {simp(y[3]) for y in t.mine if y[0] == "CALL" and y[1].endswith("::getNodeName")}
            cs = {(e.header, i) for i, (old, new) in e.phis.items() if new is not None and simp(new) in got}
            carriers = cs if carriers is None else carriers & cs
    carriers = carriers or ()
    for e in ends:
        t = L.of(e)
        w = where(f, e)
        nm = [y for y in t.ev if y[0] == "CALL" and y[1].endswith("::getNodeName")]
        last = simp(nm[-1][3]) if nm else None
        for (h, i) in carriers:
            if e.kind == "iter" and h == e.header and i in e.phis:
                last = simp(e.phis[i][0])
            elif e.kind == "ret" and t.st.env.get(i) is not None:
                last = simp(t.st.env[i])
        null = t.m.decide(t.st, cmpv("eq", last, ("null",))) if last else None
        if e.kind == "ret":
            c.ob("reads-to-the-last-entry", name, null is True, w, "reading ends before the last entry")
            first = [y for y in t.ev if y[0] in ("insert", "mapat", "clear", "assign-key") and L.cname(e, y) == mp]
            c.ob("starts-empty", name, bool(first) and first[0][0] == "clear", w, "old entries are mixed with the ones that are read")
        if e.kind == "iter":
            mine = set(map(id, t.mine))
            rd = [y for y in archive_calls(t) if id(y) in mine]
            ins = [y for y in t.mine if y[0] in ("insert", "mapat", "assign-key") and L.cname(e, y) == mp]
            c.ob("reads-only-entries", name, null is False, w, "an entry is read although there is none")
            c.ob("one-value-per-entry", name, len(rd) == 1 and len(ins) == 1, w, "an entry is not read and kept exactly once")
            if len(rd) != 1 or len(ins) != 1:
                continue
            y = ins[0]
            k = t.at(y)
            a = list(y[2][1:])
            if y[0] == "insert" and len(a) == 3:
                a = a[1:]
            v = rd[0][2][1]
            if len(a) == 2:
                kv, vv = a
            elif y[0] == "mapat":
                kv, vv = a[0], None
                for z in t.mine:
                    if t.is_copy(z) and ptr(simp(z[2][0]))[0] == simp(y[3]):
                        vv = z[2][1]
            else:
                kv, vv = a[0], shifted(a[0], 32)
            kt = L.text(e, kv, k)
            ok = any(z[0] in ("s.ctor", "s.assign") and len(z[2]) > 1 and simp(z[2][1]) == last and t.same(t.origin(kv, k)[0], z[2][0]) for z in t.ev[:k]) or ptr(t.origin(kv, k)[0]) == ptr(last)
            before = [z for z in t.mine if z[0] in ("s.ctor", "s.assign") and len(z[2]) > 1 and simp(z[2][1]) == last]
            c.ob("key-is-the-name", name, ok, w, "an entry is not kept under its name")
            c.ob("name-taken-before-reading", name, bool(before) and t.at(before[0]) < t.at(rd[0]), w, "the name is looked at after the archive has moved on")
            same = vv is not None and any(ptr(t.origin(q, k)[0]) == ptr(t.origin(v, t.at(rd[0]))[0]) for q in (vv, shifted(vv, 16)))
            c.ob("value-is-what-was-read", name, same and t.at(rd[0]) < k, w, "an entry is kept with another value than the one that was read")


FIELDS = {"kpsr::Property": ("value",), "kpsr::ConfigurationProperties": ("_properties",), "kpsr::DynamicConfigurationProperties": ("_properties",), "cereal": ("_configurationKey", "_configurationData", "_sourceId")}


def whole(c, f, p):
    L, ends, m = ways(c, f)
    cls = f.sq.rpartition("::")[0]
    obj = f.argname(1) if cls == "cereal" else "this"
    a = 0 if cls == "cereal" else 1
    name = (cls if cls != "cereal" else "ZMQEnvironmentData") + (" in" if "Input" in f.dem.split("(")[0] else " out")
    for e in ends:
        if e.kind != "ret":
            continue
        t = L.of(e)
        ar = [q for y in archive_calls(t, a) for q in archived(L, e, y)]
        want = sorted("%s.%s" % (obj, q) for q in fields(f, cls, p))
        c.ob("every-field-archived-once", name, sorted(v for n, v in ar) == want, where(f, e), "the archive holds %s instead of %s" % (sorted(v for n, v in ar), want))
        if len(ar) > 1:
            c.ob("fields-have-own-names", name, len({n for n, v in ar}) == len(ar), where(f, e), "two fields have the same name")


def fields(f, cls, p):
    if cls != "cereal":
        return FIELDS[cls]
    ty = p.ptr_target(f.argtype(1)) if f.argtype(1) is not None else None
    ms = [m["name"] for m in p.types[ty].get("mem", []) if not m["inh"]] if ty is not None else None
    return ms or FIELDS["cereal"]


# --------------------------------------------------------------- K06
RECORDS = ("kpsr::Sensor", "kpsr::mem::EventData", "kpsr::zmq_mdlw::ZMQEnvironmentData")


@prop("K06", "field-coverage analysis of constructors, assignments and copies of event records",
      "Every constructor, assignment and clone of the three record types, all fields of the type as declared.")
def k06(c):
    p = c.program(AUNIT, [r".*kpsr::Sensor::.*", r".*kpsr::mem::EventData<.*>::.*", r".*kpsr::zmq_mdlw::ZMQEnvironmentData::.*"], libkeep=KEEP)
    n = {}
    for f in p.fns.values():
        cls, _, meth = f.sq.rpartition("::")
        if cls not in RECORDS or meth.startswith("~"):
            continue
        n[cls] = n.get(cls, 0) + 1
        L, ends, m = ways(c, f)
        short = cls.rpartition("::")[2]
        if f.argname(0) != "this":
            continue
        ty = p.ptr_target(f.argtype(0))
        mem = [q for q in p.types[ty]["mem"] if not q["inh"]]
        c.need(len(mem) >= 2, "%s has no fields" % cls)
        sig = f.dem[f.dem.index(meth + "(", f.dem.index(short)) if meth + "(" in f.dem[f.dem.index(short):] else 0:]
        copy = len(f.args) == 2 and re.search(r"%s(<.*>)?( const)?&&?\)" % short, f.dem) is not None
        name = "%s::%s/%d" % (short, "copy" if copy and meth == short else meth, len(f.args) - 1)
        for e in ends:
            if e.kind != "ret":
                continue
            t = L.of(e)
            w = where(f, e)
            params = {strip(f.argname(i)): i for i in range(1, len(f.args))}
            for q in mem:
                wr = last_write(t, q["off"], q["size"])
                c.ob("field-set", "%s %s" % (name, q["name"]), wr is not None, w, "the field %s has no value afterwards" % q["name"])
                if wr is None:
                    continue
                src = origin_of(t, wr)
                if copy:
                    c.ob("field-copied", "%s %s" % (name, q["name"]), src == ("from", 1, q["off"]), w, "the field %s is not copied from the same field" % q["name"])
                elif strip(q["name"]) in params:
                    i = params[strip(q["name"])]
                    c.ob("field-from-parameter", "%s %s" % (name, q["name"]), src in (("from", i, 0), ("value", i)), w, "the field %s is not what was passed for it" % q["name"])
                elif strip(q["name"]) == "timestamp" and meth == short:
                    c.ob("timestamp-is-now-in-ms", name, wr[0][0] == "STORE" and is_now_ms(t, wr[0][2][1]), w, "the timestamp is not the current time in milliseconds")
            if not copy and meth == short:
                # parameters that go to no field of their name: each is used
                for pn, i in params.items():
                    used = any(origin_of(t, last_write(t, q["off"], q["size"])) in (("from", i, 0), ("value", i)) for q in mem if last_write(t, q["off"], q["size"]) is not None)
                    c.ob("parameter-used", "%s %s" % (name, pn), used, w, "what is passed for %s gets lost" % pn)
    for r in RECORDS:
        c.need(n.get(r, 0) >= 2, "%s is gone" % r)


def strip(n):
    return (n or "").strip("_")


def last_write(t, off, size):
    """the last event that sets the field at the offset of the object itself -> (event, offset of the field in what it copies)"""
    for y in reversed(t.ev):
        if not y[2] or y[0] in ("LOOP",) or y[0].endswith("dtor"):
            continue
        b, o, var = ptr(simp(y[2][0]))
        if b != ("arg", "this") or var:
            continue
        if y[0] in ("STORE", "COPY"):
            n = y[2][2][1] if y[2][2][0] == "c" else 0
            if o <= off and off + size <= o + n or y[0] == "STORE" and o == off:
                return y, off - o
        elif o == off and (y[0].endswith(("ctor", "assign", "swap")) or t.is_copy(y) or y[0] == "CALL" and re.search(r"(\w+)::\1$", y[1])):
            return y, 0
        elif o == 0 and y[0] == "CALL" and y[1].rpartition("::")[0] == t.fn.sq.rpartition("::")[0] and t.is_copy(y):
            return y, off
    return None


def origin_of(t, wr):
    if wr is None:
        return None
    y, d = wr
    if y[0] == "STORE":
        v = simp(y[2][1])
        while v[0] in ("ext", "trunc"):
            v = simp(v[1])
        if v[0] == "arg":
            return ("value", v[1])
        if v[0] == "ld" and not v[3]:
            b, o, var = ptr(mkp(v[1], v[2], v[3]))
            return ("from", b[1], o) if b[0] == "arg" and not var else None
        return None
    if len(y[2]) < 2:
        return None
    o = t.origin(y[2][1], t.at(y))[0] if y[0] != "COPY" else y[2][1]
    b, o, var = ptr(simp(o))
    return ("from", b[1], o + d) if b[0] == "arg" and not var else None


def is_now_ms(t, v):
    v = simp(v)
    div = 1
    for _ in range(6):
        if v[0] == "op" and v[1] in ("sdiv", "udiv") and simp(v[-1])[0] == "c":
            div *= simp(v[-1])[1]
            v = simp(v[-2])
        elif v[0] in ("ext", "trunc", "zext"):
            v = simp(v[1])
        else:
            break
    return div == 1000000 and v[0] == "call" and "system_clock::now" in (t.fn.insts[v[1]].callee or "")
