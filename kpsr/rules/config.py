"""Configuration: files, conversion, property stores, environments, sensors."""
import os
import re

from ..build import VERIF
from ..cont import KEEP, Loops, cev, found
from ..core import prop
from ..sem import Ev, cmpv, lsum, ptr, simp, truthy
from ..strs import FINDS, NPOS, Cut, text
from ..sym import linv, mkp
from .fsm import changes, thr, walk, where

UNIT = os.path.join(VERIF, "units", "config.cpp")
WS = frozenset("\t ")
SPACE = frozenset(" \t\r\n\v\f")


def blank(cs):
    return cs >= {" "} and cs <= SPACE


def chev(chars=True, fields=r"^this\.\w+$"):
    """containers, strings, calls and single characters that are read"""
    base = cev(fields=fields, loads=True)

    def ev(m, x, st, vals, res):
        r = base(m, x, st, vals, res)
        if r is None and chars and x.op == "load" and res is not None:
            b = ptr(simp(vals[0]))[0]
            if b[0] == "call":
                q = m.fn.insts[b[1]].callee or ""
                if re.match(r"^std::__cxx11::basic_string::(operator\[\]|at|front|back)$", q):
                    return Ev(("CHAR", None, (simp(vals[0]),), res, x.i, None))
        return r
    ev.again = base.again
    return ev


def ways(c, f, **kw):
    c.analysed(f)
    ends, m = walk(f, chev(**kw), throws=thr, sticky=changes(None), limit=500000)
    ends = [e for e in ends if e.kind != "stop" and not (e.x is not None and e.x.op == "unreachable")]
    c.count("paths", len(ends))
    return Loops(ends, f), ends, m


def line_base(t, y, v):
    return "line" if y[0] == "CALL" and y[1] == "std::getline" and len(y[2]) > 1 and t.same(y[2][1], v) else None


def expect(s, pieces, cut, need_upto):
    """is the term the expected chain?  need_upto: {set: known absent?}"""
    if s is None or s[0] != "line":
        return False
    ops = list(s[1])
    for kind, cs in pieces:
        if ops and ops[0][0] == kind and (ops[0][1] == cs if kind in ("after",) or cs == frozenset(";") or cs == frozenset("=") else blank(ops[0][1]) and ops[0][1] >= WS):
            ops.pop(0)
        elif kind == "upto" and need_upto(s, kind, cs, ops):
            continue
        else:
            return False
    return not ops


SEMI, EQ = frozenset(";"), frozenset("=")


class Parse:
    """what one path knows about the current line"""

    def __init__(self, c, f, L, e):
        self.c, self.f, self.L, self.e, self.t = c, f, L, e, L.of(e)
        self.cut = Cut(L, e, line_base)

    def nocomment(self):
        return self.cut.find_facts(("line", ()), SEMI) is False

    def body(self):
        """the line without its comment"""
        r = [("line", (("upto", SEMI),))]
        if self.nocomment():
            r.append(("line", ()))
        return r

    def strip(self, s):
        """drop the comment cut from a term -> remaining ops, or None"""
        if s is None or s[0] != "line":
            return None
        ops = s[1]
        if ops and ops[0] == ("upto", SEMI):
            return list(ops[1:])
        return list(ops) if self.nocomment() else None

    def is_body(self, s):
        o = self.strip(s)
        return o is not None and all(k == "ltrim" and blank(cs) or k == "rtrim" and blank(cs) for k, cs in o)

    def is_key(self, s):
        o = self.strip(s)
        if not o or o[0] != ("upto", EQ):
            return False
        o = o[1:]
        if not o or o[0][0] != "ltrim" or not (blank(o[0][1]) and o[0][1] >= WS):
            return False
        o = o[1:]
        if not o:
            return self.cut.find_facts(s, WS) is False
        return len(o) == 1 and o[0][0] == "upto" and blank(o[0][1]) and o[0][1] >= WS

    def is_value(self, s):
        if s == ("", ()):
            # a blank value
            return any((x[0] == "line" and k == "outside" and cs >= WS and blank(cs) and not yes and self.strip(x) == [("after", EQ)]) for x, k, cs, yes in self.cut.facts())
        o = self.strip(s)
        if not o or o[0] != ("after", EQ):
            return False
        return [k for k, _ in o[1:]] == ["ltrim", "rtrim"] and all(blank(cs) and cs >= WS for _, cs in o[1:])

    def separator(self):
        """is '=' known to be (or not to be) in the line?"""
        for y in self.t.ev:
            if y[0] in FINDS and FINDS[y[0]] == "find" and self.cut.chars(y) == EQ and self.is_body(self.cut.term(y[2][0], self.t.at(y))):
                d = self.cut.missed(y)
                if d is not None:
                    return not d
        return None

    def key_empty(self):
        """does the line (after blanks) start with the separator?"""
        r = None
        for y in self.t.ev:
            k = self.t.at(y)
            if y[0] == "CHAR":
                g = self.get(y)
                if g and g[1] == 0:
                    o = self.strip(self.cut.term(g[0], self.t.at(g[2])))
                    if o and [q[0] for q in o if q[0] != "rtrim"] == ["ltrim"]:
                        d = self.t.m.decide(self.t.st, cmpv("eq", simp(y[3]), ("c", 61)))
                        r = d if d is not None else r
            if y[0] in FINDS and FINDS[y[0]] == "find" and self.cut.chars(y) == EQ:
                o = self.strip(self.cut.term(y[2][0], k))
                if o is not None and [q[0] for q in o if q[0] != "rtrim"] == ["ltrim"]:
                    d = self.t.m.decide(self.t.st, cmpv("eq", simp(y[3]), ("c", 0)))
                    r = d if d is not None else r
            d = self.empty_event(y)
            if d is not None:
                o = self.strip(self.cut.term(y[2][0], k))
                if o and o[0] == ("upto", EQ):
                    r = d
        return r

    def get(self, y):
        """(string, constant index, access event) of a character that is read"""
        b, off, var = ptr(y[2][0])
        for z in reversed(self.t.ev[:self.t.at(y)]):
            if z[0] in ("s.at", "s.operator[]", "s.front") and z[3] is not None and simp(z[3]) == b and not var and not off:
                i = simp(z[2][1]) if len(z[2]) > 1 else ("c", 0)
                return z[2][0], (i[1] if i[0] == "c" else i), z
        return None

    def empty_event(self, y):
        st = self.t.st
        if y[0] == "s.empty":
            return truthy(self.t.m, st, y[3])
        if y[0] == "s.size":
            d = self.t.m.decide(st, cmpv("eq", simp(y[3]), ("c", 0)))
            return d
        if y[0] in ("s.eq", "s.ne") and self.t.literal(y, 1) == "":
            d = truthy(self.t.m, st, y[3])
            return d if y[0] == "s.eq" or d is None else not d
        return None

    def value_char(self):
        """was a character other than the space seen behind the separator?  (a tab alone counts as a value)"""
        for y in self.t.ev:
            if y[0] == "CHAR":
                g = self.get(y)
                if g and not isinstance(g[1], int) and self.behind(g) and self.t.m.decide(self.t.st, cmpv("eq", simp(y[3]), ("c", 32))) is False:
                    return True
        return False

    def value_blank(self):
        """is the part after the separator known to be (not) blank?"""
        r = False if self.value_char() else None
        for y in self.t.ev:
            k = self.t.at(y)
            if y[0] in FINDS and FINDS[y[0]] in ("not", "lastnot"):
                cs = self.cut.chars(y)
                o = self.strip(self.cut.term(y[2][0], k))
                if cs and blank(cs) and o is not None:
                    zero = self.cut.zero(y)
                    fr = None if zero or len(y[2]) <= 2 else self.after_sep(y[2][2])
                    if (zero and o and o[0] == ("after", EQ)) or fr:
                        d = self.cut.missed(y)
                        r = d if d is not None else r
            d = self.empty_event(y)
            if d is not None:
                o = self.strip(self.cut.term(y[2][0], k))
                if o and o[0] == ("after", EQ) and any(q[0] in ("ltrim", "rtrim") for q in o):
                    r = d
        if r is None and self.scan_over():
            r = True
        return r

    def after_sep(self, v):
        q = self.cut.search(simp(v))
        return q is not None and q[1] == 1 and self.cut.chars(q[0]) == EQ

    def behind(self, g):
        """does the index walk up from the first character after the separator?"""
        l = linv(g[1])
        for (h, i), (first, steps) in self.scans().items():
            if steps != {1} or first is None:
                continue
            now = [self.t.st.env.get(i)] + [e.phis[i][0] for e in self.L.ends if e is self.e and e.kind == "iter" and e.header == h]
            for cur in now:
                if cur is not None and lsum(l, linv(cur), -1) == ({}, 1 - first):
                    return True
        return self.after_sep(g[1])

    def scans(self):
        """character loops: (header, phi) -> (distance of its first value from the separator, steps)"""
        if not hasattr(self.L, "_scans"):
            r = {}
            for e in self.L.ends:
                if e.kind != "iter" or not e.phis:
                    continue
                pe = Parse(self.c, self.f, self.L, e)
                for i, (old, new) in e.phis.items():
                    if old is None or new is None:
                        continue
                    d = lsum(linv(new), linv(old), -1)
                    if d[0]:
                        continue
                    a, s = r.get((e.header, i), (None, set()))
                    q = pe.cut.search(simp(old))
                    if q is not None and pe.cut.chars(q[0]) == EQ:
                        a = q[1]
                    r[(e.header, i)] = (a, s | {d[1]})
            self.L._scans = r
        return self.L._scans

    def scan_over(self):
        """has a loop over the characters behind the separator come to the end of the line?"""
        sizes = [y for y in self.t.ev if y[0] == "s.size"]
        past = lambda v, n: any(self.t.m.decide(self.t.st, cmpv("ult", ("op", "add", 64, simp(v), ("c", n)) if n else simp(v), simp(y[3]))) is False for y in sizes)
        for (h, i), (first, steps) in self.scans().items():
            cur = self.t.st.env.get(i)
            if cur is not None and first is not None and steps == {1} and past(cur, 1 - first):
                return True
        # no turn at all
        return any(z[0] in FINDS and self.cut.chars(z) == EQ and past(z[3], 1) for z in self.t.ev)

    def line_blank(self):
        """is the line without its comment known to be blank?"""
        for y in self.t.ev:
            k = self.t.at(y)
            if y[0] in FINDS and FINDS[y[0]] in ("not", "lastnot") and self.cut.zero(y):
                cs = self.cut.chars(y)
                s = self.cut.term(y[2][0], k)
                if cs and blank(cs) and (self.is_body(s) or s == ("line", ())) and self.cut.missed(y) is True:
                    return True
            if self.empty_event(y) is True:
                s = self.cut.term(y[2][0], k)
                if self.is_body(s) or s == ("line", ()):
                    return True
        return False


def stores(P):
    """(event, key term, value term) of what the path puts into the map"""
    t, out = P.t, []
    for y in t.mine:
        k = t.at(y)
        if y[0] == "insert" and P.L.cname(P.e, y) == "this.contents":
            a = y[2][1:]
            if len(a) == 1:
                q = simp(a[0])
                out.append((y, P.cut.term(q, k), P.cut.term(mkp(*_off(q, 32)), k)))
            elif len(a) >= 2:
                out.append((y, P.cut.term(a[-2], k), P.cut.term(a[-1], k)))
        elif y[0] == "assign-key" and P.L.cname(P.e, y) == "this.contents":
            out.append((y, P.cut.term(y[2][1], k), P.cut.term(y[2][2], k)))
        elif y[0] == "mapat" and P.L.cname(P.e, y) == "this.contents":
            w = [z for z in t.ev if z[0] == "s.assign" and simp(z[2][0]) == simp(y[3])]
            out.append((y, P.cut.term(y[2][1], k), P.cut.term(w[-1][2][1], t.at(w[-1])) if w else None))
    return out


def _off(q, n):
    b, o, v = ptr(q)
    return b, o + n, v


def known_new(P, y, key):
    """does the path know that the key was not in the map before event y?"""
    t = P.t
    for z in t.ev:
        if z[0] in ("find", "count") and P.L.cname(P.e, z) == "this.contents" and P.cut.term(z[2][1], t.at(z)) == key:
            r = found(P.L, P.e, "this.contents")
            if r is not None:
                return not r
    return None


def inserted(P):
    """what insert() reported on the path, if that was looked at"""
    t = P.t
    for y in t.ev:
        if y[0] == "insert" and y[3] is not None and P.L.cname(P.e, y) == "this.contents":
            f = ("fld", simp(y[3]), (1,), 8)
            for b in (("ext", f, 0, 1), f, ("fld", y[3], (1,), 8), ("fld", y[3], (1,), 1)):
                d = truthy(t.m, t.st, b)
                if d is not None:
                    return d
    return None


@prop("K01", "path-sensitive analysis of the configuration file parser over string-slice normal forms",
      "Every path of both constructors for any file content; cutting is compared by normal form, so that the way it is written does not matter.")
def k01(c):
    p = c.program(UNIT, [r".*kpsr::ConfigFile::ConfigFile.*"], libkeep=KEEP)
    fs = p.find("kpsr::ConfigFile::ConfigFile")
    fs = [f for f in fs if len(f.args) == 2 and not re.search(r"ConfigFile (const )?&", f.dem)]
    c.need(len(fs) == 2, "the constructors of ConfigFile are gone")
    for f in fs:
        byname = "istream" not in f.dem
        name = "ConfigFile(%s)" % ("name" if byname else "stream")
        L, ends, m = ways(c, f)
        seen = 0
        opened = re.compile(r"basic_ifstream::(open|basic_ifstream)$")
        for e in ends:
            P = Parse(c, f, L, e)
            t, w = P.t, where(f, e)
            if P.cut.impossible():
                continue
            gl = [y for y in t.ev if y[0] == "CALL" and y[1] == "std::getline"]
            if byname and gl:
                op = [y for y in t.ev if y[0] == "CALL" and opened.search(y[1]) and len(y[2]) > 1]
                ok = bool(op) and ptr(simp(op[0][2][0]))[0] == ptr(simp(gl[0][2][0]))[0] and names_arg(P, op[0], f)
                c.ob("reads-the-file", name, ok, w, "the lines do not come from the named file")
                c.ob("missing-file-refused", name, stream_state(t, gl[0], before=t.at(gl[0])) is True, w, "a file that cannot be opened is read as if it were empty")
            elif gl:
                c.ob("reads-the-stream", name, all(ptr(simp(y[2][0]))[0] == ("arg", 1) for y in gl), w, "the lines do not come from the given stream")
            st = stores(P)
            thrown = [y for y in t.mine if y[0] == "THROW"]
            if e.kind == "ret":
                ok = False
                for y in gl[-1:]:
                    ok = stream_state(t, y, after=t.at(y)) is False
                c.ob("reads-every-line", name, ok, w, "parsing ends before the end of the file")
            if e.kind == "iter" and any(y in t.mine for y in gl):
                seen += 1
                if not st:
                    c.ob("only-blank-lines-skipped", name, P.line_blank(), w, "a line is skipped that is not known to be blank or a comment")
            for y, k, v in st:
                w2 = f.where(f.insts[y[4]])
                c.ob("key-is-text-before-separator", name, P.is_key(k), w2, "the key that is stored is %s" % text(k))
                c.ob("value-is-text-after-separator", name, P.is_value(v), w2, "the value that is stored is %s" % text(v))
                c.ob("line-has-separator", name, P.separator() is True, w2, "a line without a separator is stored")
                c.ob("no-empty-key", name, P.key_empty() is False, w2, "a line without a key is stored")
                c.ob("no-empty-value", name, P.value_char() or P.value_blank() is False, w2, "a line without a value is stored")
                new = known_new(P, y, k)
                c.ob("first-value-kept", name, new is True or y[0] == "insert", w2, "the value of a key that is already there may be replaced")
                if e.kind in ("iter", "ret") :
                    c.ob("duplicates-refused", name, new is True or inserted(P) is True, w2, "a second value for a key is dropped silently")
            c.ob("one-entry-per-line", name, len(st) <= 1 or e.kind == "exc", w, "a line is stored more than once")
            for y in thrown:
                w2 = f.where(f.insts[y[4]])
                c.ob("refuses-with-invalid-argument", name, y[1] == "invalid_argument", w2, "throws %s" % y[1])
                if not gl:
                    # nothing read yet: the file could not be opened
                    c.ob("refuses-only-bad-lines", name, byname, w2, "construction fails without a reason")
                    continue
                why = P.separator() is False or P.key_empty() is True or P.value_blank() is True or found(L, e, "this.contents") is True or inserted(P) is False
                c.ob("refuses-only-bad-lines", name, why, w2, "a line is refused that is not known to be malformed")
                c.ob("no-refusal-of-blank-lines", name, not P.line_blank(), w2, "a blank line is refused")
                if found(L, e, "this.contents") is not True and inserted(P) is not False:
                    c.ob("tells-the-line", name, tells_line(P, y), w2, "the message does not hold the number of the line")
            for y in t.mine:
                if y[0] in ("erase", "clear", "swap", "assign", "mapget") and P.L.cname(e, y) == "this.contents":
                    c.ob("entries-kept", name, False, f.where(f.insts[y[4]]), "entries that were read are changed or dropped")
        c.ob("lines-handled", name, seen > 0, f.here(), "no line is ever read")


def names_arg(P, op, f):
    a = op[2][1]
    if ptr(simp(a))[0] == ("arg", 1):
        return True
    return any(y[0] in ("s.c_str", "s.data") and y[3] is not None and simp(y[3]) == simp(a) and P.t.origin(y[2][0], P.t.at(y))[0] == ("arg", 1) for y in P.t.ev)


def stream_state(t, y, before=None, after=None):
    """what the path knows about the state of the stream that event y reads"""
    b = ptr(simp(y[2][0]))[0]
    r = None
    for z in t.ev[:before] if before is not None else t.ev[after:]:
        if z[0] != "CALL":
            continue
        k = re.search(r"basic_(?:ios|ifstream|istream|fstream)::(operator bool|operator!|fail|good|is_open|eof|bad)$", z[1])
        if not k or z[3] is None:
            continue
        o = ptr(simp(z[2][0]))
        root = o[0]
        for _ in range(4):
            # the stream that getline returned
            if root[0] == "call":
                g = [q for q in t.ev if q[0] == "CALL" and q[2] and q[3] is not None and simp(q[3]) == root]
                if not g:
                    break
                root = ptr(simp(g[-1][2][0]))[0]
            else:
                break
        if root != b:
            continue
        d = truthy(t.m, t.st, z[3])
        if d is None:
            continue
        if k.group(1) in ("operator!", "fail"):
            r = not d
        elif k.group(1) in ("operator bool", "good"):
            # a line that ends with the file was read although the stream is not good any more
            r = d if d or k.group(1) != "good" or before is not None else r
        elif k.group(1) == "is_open" and before is not None:
            r = d
        elif k.group(1) == "bad" and d or k.group(1) == "eof" and d and before is not None:
            r = False
    return r


def tells_line(P, y):
    """does the message contain the number of lines read so far?"""
    t = P.t
    for z in t.ev:
        if z[0] == "CALL" and (re.search(r"ostream::operator<<$", z[1]) or z[1] in ("std::__cxx11::to_string", "std::to_string")) and len(z[2]) >= 1:
            for q in z[2]:
                if counts_lines(P, simp(q)):
                    return True
    return False


def counts_lines(P, v):
    """is v a counter that grows by one with every line that is read?"""
    n = 0
    for e in P.L.ends:
        if e.kind != "iter" or not e.phis or not any(y[0] == "CALL" and y[1] == "std::getline" for y in P.L.of(e).mine):
            continue
        hit = False
        for i, (old, new) in e.phis.items():
            if old is None or new is None:
                continue
            d = lsum(linv(new), linv(old), -1)
            cur = P.t.st.env.get(i)
            if cur is None:
                continue
            x = lsum(linv(v), linv(cur), -1)
            if not d[0] and d[1] == 1 and not x[0] and x[1] in (0, 1):
                hit = True
        if not hit:
            return False
        n += 1
    return n > 0
