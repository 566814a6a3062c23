"""What a string is cut from: normal forms of find / erase / substr chains on event paths.

A term is (base, ops): ops are upto(set), after(char), ltrim(set), rtrim(set), applied left to right and brought into
one order, so that different ways of cutting the same piece give the same term."""
from .sem import cmpv, lsum, ptr, simp
from .sym import linv

NPOS = -1
COPIES = ("s.ctor", "s.assign")
FINDS = {"s.find": "find", "s.find_first_of": "find", "s.find_first_not_of": "not", "s.find_last_not_of": "lastnot", "s.find_last_of": "last", "s.rfind": "last"}


class Cut:
    def __init__(self, L, e, base=None):
        self.L, self.e, self.t = L, e, L.of(e)
        self.memo = {}
        self.base = base or (lambda t, y, v: None)

    def chars(self, y):
        """the set of characters a search is for"""
        s = self.t.literal(y, 1)
        if s is not None:
            return frozenset(s) if s or y[0] != "s.find" else None
        q = simp(y[2][1]) if len(y[2]) > 1 else ("?",)
        return frozenset(chr(q[1] & 255)) if q[0] == "c" else None

    def search(self, v):
        """(search event, constant added) for a position value"""
        l = linv(v)
        if len(l[0]) != 1:
            return None
        (a, c), = l[0].items() if isinstance(l[0], dict) else l[0]
        if c != 1:
            return None
        for y in reversed(self.t.ev):
            if y[0] in FINDS and y[3] is not None and simp(y[3]) == a:
                return y, (l[1] + (1 << 63)) % (1 << 64) - (1 << 63)
        return None

    def missed(self, y):
        """does the path know whether the search found nothing?"""
        d = self.t.m.decide(self.t.st, cmpv("eq", simp(y[3]), ("c", -1)))
        return d

    def find_facts(self, term, cs, k=None):
        """is one of the characters known to occur (True) or not to occur (False) in the piece?"""
        no = set()
        for y in self.t.ev if k is None else self.t.ev[:k]:
            if y[0] in FINDS and FINDS[y[0]] in ("find", "last") and self.zero(y):
                s = self.chars(y)
                if s is None or not self.eq(self.term(y[2][0], self.t.at(y)), term):
                    continue
                d = self.missed(y)
                if d is False and s <= cs:
                    return True
                if d is True:
                    no |= s
        return False if cs <= no else None

    def zero(self, y):
        """a search over the whole string"""
        if y[0] in ("s.find", "s.find_first_of", "s.find_first_not_of"):
            if len(y[2]) <= 2:
                return True
            q = simp(y[2][2])
            return q == ("c", 0) or q[0] == "c" and q[1] == 0
        return len(y[2]) <= 2 or simp(y[2][2])[0] == "c" and simp(y[2][2])[1] in ((1 << 64) - 1, -1)

    def eq(self, a, b):
        return a is not None and b is not None and a == b

    def term(self, v, k=None, depth=16):
        k = len(self.t.ev) if k is None else k
        v = simp(v)
        if (v, k) not in self.memo:
            self.memo[(v, k)] = self._term(v, k, depth)
        return self.memo[(v, k)]

    def _term(self, v, k, depth):
        t = self.t
        if depth <= 0:
            return None
        for j in range(k - 1, -1, -1):
            y = t.ev[j]
            if y[0] == "LOOP" and t.is_carried(y, v):
                return None
            if not y[2] or not any(t.same(q, v) for q in y[2]):
                continue
            b = self.base(t, y, v)
            if b is not None:
                return (b, ())
            first = t.same(y[2][0], v)
            if y[0] in COPIES and first:
                if len(y[2]) == 1:
                    return ("", ())
                if t.literal(y, 1) is not None:
                    return (("lit", t.literal(y, 1)), ())
                if len(y[2]) >= 4 or len(y[2]) == 3 and simp(y[2][2])[0] != "p":
                    return self.slice(y[2][1], j, y[2][2], y[2][3] if len(y[2]) > 3 else ("c", NPOS), depth)
                return self.term(y[2][1], j, depth - 1)
            if y[0] == "s.substr" and first and len(y[2]) >= 2:
                return self.slice(y[2][1], j, y[2][2] if len(y[2]) > 2 else ("c", 0), y[2][3] if len(y[2]) > 3 else ("c", NPOS), depth)
            if y[0] == "s.swap":
                return self.term(y[2][1] if first else y[2][0], j, depth - 1)
            if y[0] == "s.clear" and first:
                return self.cleared(self.term(v, j, depth - 1), j)
            if y[0] == "s.erase" and first:
                s = self.term(v, j, depth - 1)
                a = simp(y[2][1]) if len(y[2]) > 1 else ("c", 0)
                n = simp(y[2][2]) if len(y[2]) > 2 else ("c", NPOS)
                if a == ("c", 0):
                    return self.drop(s, n, j)
                if n == ("c", NPOS) or n[0] == "c" and n[1] in (-1, (1 << 64) - 1):
                    return self.keep(s, a, j, True)
                return None
            if y[0] == "s.resize" and first and len(y[2]) > 1:
                return self.keep(self.term(v, j, depth - 1), y[2][1], j, True)
            if y[0].startswith("s.") and first and y[0] not in FINDS and y[0] not in ("s.empty", "s.size", "s.at", "s.operator[]", "s.front", "s.back", "s.compare", "s.begin", "s.end", "s.c_str", "s.data", "s.dtor", "s.eq", "s.ne", "s.plus"):
                return None
            if y[0] == "CALL" and t.writes(y, v):
                return None
        el = t.element(v, k)
        if el:
            return (("elem",) + tuple(map(str, el[:3])), ())
        return (self.L.desc(self.e, v, k), ())

    def cleared(self, s, j):
        """nothing is left: which is what trimming leaves of a text without anything else"""
        for y in reversed(self.t.ev[:j]):
            if s is not None and y[0] in FINDS and FINDS[y[0]] in ("not", "lastnot") and self.zero(y) and self.chars(y) and self.missed(y) is True and self.term(y[2][0], self.t.at(y)) == s:
                return norm(s, ("ltrim" if FINDS[y[0]] == "not" else "rtrim", self.chars(y)))
        return ("", ())

    def facts(self):
        """(text, "has" | "outside", characters, known to hold or not) for every search over a whole text"""
        out = []
        for y in self.t.ev:
            if y[0] not in FINDS or not self.zero(y):
                continue
            cs, s, d = self.chars(y), self.term(y[2][0], self.t.at(y)), self.missed(y)
            if not cs or s is None or d is None:
                continue
            has = FINDS[y[0]] not in ("not", "lastnot")
            ops = list(s[1])
            # blanks that were trimmed do not matter to a search for anything else
            while ops and ops[-1][0] in ("ltrim", "rtrim") and (not (ops[-1][1] & cs) if has else ops[-1][1] <= cs):
                ops.pop()
            out.append(((s[0], tuple(ops)), "has" if has else "outside", cs, not d))
        return out

    def impossible(self):
        """do the outcomes of the searches contradict each other?"""
        fs = self.facts()
        for s, kind, cs, yes in fs:
            if yes and s == ("", ()):
                return True
            for s2, k2, c2, y2 in fs:
                if s2 != s:
                    continue
                if k2 == kind and c2 == cs and y2 != yes:
                    return True
                if yes and not y2 and kind == "has" and k2 == "outside" and not (cs & c2):
                    return True
        return False

    def slice(self, src, j, a, n, depth):
        s = self.term(src, j, depth - 1)
        a, n = simp(a), simp(n)
        if n[0] == "c" and n[1] in (-1, (1 << 64) - 1):
            return s if a == ("c", 0) else self.drop(s, a, j)
        if a == ("c", 0):
            return self.keep(s, n, j, False)
        # substr(a, b - a)
        r = self.keep(s, ("lin", n, a), j, False) if False else None
        from .sym import mkp  # noqa: F401
        d = lsum(linv(n), linv(a))
        q = self.of_lin(d)
        if q is None:
            return r
        up = self.keep(s, q, j, False)
        return self.drop(up, a, j) if up is not None else None

    def of_lin(self, l):
        if len(l[0]) != 1:
            return None
        (a, c), = l[0].items() if isinstance(l[0], dict) else l[0]
        if c != 1:
            return None
        return a if not l[1] else ("op", "add", 64, a, ("c", l[1] % (1 << 64)))

    def drop(self, s, n, j):
        """without the first n characters"""
        if s is None:
            return None
        if n == ("c", 0):
            return s
        q = self.search(n)
        if q is None:
            return None
        y, c = q
        u = self.term(y[2][0], self.t.at(y))
        cs = self.chars(y)
        if cs is None or not self.zero(y):
            return None
        if FINDS[y[0]] == "not" and c == 0 and compatible(u, s):
            return norm(s, ("ltrim", cs))
        if FINDS[y[0]] == "find" and c == 1 and len(cs) == 1 and u == s:
            return norm(s, ("after", cs))
        return None

    def keep(self, s, p, j, guard):
        """only the characters before position p"""
        if s is None:
            return None
        q = self.search(simp(p))
        if q is None:
            return None
        y, c = q
        u = self.term(y[2][0], self.t.at(y))
        cs = self.chars(y)
        if cs is None or not self.zero(y):
            return None
        if FINDS[y[0]] == "find" and c == 0 and u == s:
            if guard and self.missed(y) is not False and self.find_facts(s, cs, j) is not True:
                return None  # erase(npos) throws
            return norm(s, ("upto", cs))
        if FINDS[y[0]] == "lastnot" and c == 1 and u == s:
            return norm(s, ("rtrim", cs))
        return None


def compatible(u, s):
    return u == s


def norm(s, op):
    b, ops = s
    ops = list(ops)
    if ops and ops[-1] == op:
        return s
    ops.append(op)
    k = len(ops) - 1
    while k > 0:
        a, c = ops[k - 1], ops[k]
        dis = not (a[1] & c[1])
        if c[0] == "after" and a[0] == "ltrim" and dis:
            ops[k - 1:k + 1] = [c]                      # after(c) drops what the trim dropped
            k -= 1
        elif c[0] == "after" and a[0] == "rtrim" and dis:
            ops[k - 1:k + 1] = [c, a]
            k -= 1
        elif c[0] == "upto" and a[0] == "ltrim" and dis and len(c[1]) == 1 and not (c[1] & frozenset(" \t")):
            ops[k - 1:k + 1] = [c, a]
            k -= 1
        elif c[0] == "upto" and a[0] == "rtrim" and dis:
            ops[k - 1:k + 1] = [c]
            k -= 1
        elif c[0] == "upto" and a[0] == "rtrim" and a[1] <= c[1]:
            ops[k - 1:k + 1] = [c]
            k -= 1
        elif c[0] == "ltrim" and a[0] == "rtrim" and a[1] == c[1]:
            ops[k - 1:k + 1] = [c, a]
            k -= 1
        else:
            break
        # a trim that now follows another trim of the same kind
        if 0 <= k < len(ops) - 1 and ops[k] == ops[k + 1]:
            del ops[k + 1]
    out = []
    for o in ops:
        if out and out[-1] == o:
            continue
        out.append(o)
    return (b, tuple(out))


def text(s):
    if s is None:
        return "something that cannot be followed"
    return "".join([str(s[0])] + [".%s(%s)" % (o, "".join(sorted(cs)).replace("\t", "\\t")) for o, cs in s[1]])
