"""Standard containers, strings, function objects and shared pointers as abstract objects on event paths.

With KEEP the library's members stay calls; cev() turns every call into an event, and Trace answers, from the
events of one path, which object or element a pointer stands for and what a string is made of."""
import re
from .sem import Ev, clean, lsum, truthy
from .sym import cmpv, linv, ptr, simp

KEEP = [r"^std::(__cxx11::|__debug::)?(vector|map|multimap|set|multiset|unordered_map|unordered_multimap|unordered_set|list|deque|queue|stack)::", r"^std::(function|_Function_base)::"]
SEQ = r"^std::(?:__cxx11::|__debug::)?(vector|list|deque|queue|stack|map|multimap|set|multiset|unordered_map|unordered_multimap|unordered_set)::(.*)$"
MAPS = ("map", "multimap", "set", "multiset", "unordered_map", "unordered_multimap", "unordered_set")
SYN = {"cbegin": "begin", "cend": "end", "emplace_back": "push", "push_back": "push", "push": "push", "pop_front": "pop", "pop": "pop", "crbegin": "rbegin", "crend": "rend", "emplace_hint": "insert",
       "insert_or_assign": "assign-key", "try_emplace": "insert", "length": "size", "contains": "count"}


def cev(stop=(), fields=None, locks=True, loads=False):
    """event function: containers, strings, functions, shared pointers, every other call, stores (and loads) of matching fields"""
    from .locks import lock_event
    fr = re.compile(fields) if fields else None

    def ev(m, x, st, vals, res):
        if x.op in ("call", "invoke"):
            if locks:
                e = lock_event(m, x, st, vals, res)
                if e:
                    return e
            q = x.callee or m.fn.callee_name(x) or "?"
            if q.startswith("llvm.") or q in ("__cxa_begin_catch", "__cxa_end_catch", "__clang_call_terminate"):
                return None

            def pp(k):
                if len(vals) <= k or vals[k][0] in ("c", "cmp", "op", "cast"):
                    return None
                return clean(m.path(st, vals[k])[0])
            v = tuple(simp(z) for z in vals)
            if q == "__cxa_throw":
                from .sem import gname
                return Ev(("THROW", gname(vals[1]), v, None, x.i, None))
            t = tag(q)
            return Ev((t or "CALL", pp(0) if t else q, v, res, x.i, pp(1) if t else pp(0)))
        if fr is not None and x.op == "store" or fr is not None and loads and x.op == "load":
            k = 0 if x.op == "load" else 1
            s = clean(m.path(st, vals[k])[0])
            if fr.search(s):
                if x.op == "load":
                    return Ev(("LD", s, (simp(vals[0]),), res, x.i, x.get("ord")))
                return Ev(("ST", s, (simp(vals[0]),), None, x.i, x.get("ord")))
        return None
    ev.again = again
    return ev


def again(m, x, st, vals):
    """begin(), end(), size(), empty() of a container that has not changed since they were last asked"""
    t = tag(x.callee or "")
    if t not in ("begin", "end", "size", "empty") or len(vals) != 1:
        return None
    v = simp(vals[0])
    local = ptr(v)[0][0] == "al"
    for y in reversed(st.c):
        if y[0] == "LOOP":
            if len(y) < 3 or "w" not in y[2] or "called" in y[2] or not local and "CALL" in y[2]:
                return None
            if any(isinstance(q, tuple) and ptr(q[1]) == ptr(v) for q in y[2]):
                return None
            continue
        if y[0] == t and y[2] and ptr(simp(y[2][0])) == ptr(v):
            return y[3]
        if y[0] == "f.call" or not local and y[0].isupper() and not inert(y):
            return None
        if any(ptr(simp(q)) == ptr(v) for q in written(m, m.fn, y)):
            return None
    return None


INERT = re.compile(r"^std::(_Rb_tree_(in|de)crement|distance|next|prev|advance|make_shared|allocator::)|^operator (new|delete)|^__cxa_(allocate|free)|~")


def inert(y):
    """does the event leave every container but its own operands alone?"""
    return y[0] in ("LD", "ST", "STORE", "COPY", "RMW") or y[0] == "CALL" and bool(INERT.search(y[1] or ""))


def tag(q):
    if "[abi:" in q:
        q = re.sub(r"\[abi:\w+\]", "", q)
    k = re.match(SEQ, q)
    if k:
        c, op = k.group(1), k.group(2)
        if op.startswith("~"):
            return "dtor"
        if op == c:
            return "ctor"
        if op == "operator[]":
            return "mapat" if c in MAPS else "at"
        if op == "at":
            return "mapget" if c in MAPS else "at"
        if op == "emplace":
            return "insert" if c in MAPS else "push" if c in ("queue", "stack") else "insert-at"
        if op == "insert":
            return "insert" if c in MAPS else "insert-at"
        if op == "operator=":
            return "assign"
        return SYN.get(op, op)
    k = re.match(r"^std::__cxx11::basic_string::(.*)$", q)
    if k:
        op = k.group(1)
        return "s.dtor" if op.startswith("~") else "s.ctor" if op == "basic_string" else "s.assign" if op in ("operator=", "assign") else "s.append" if op in ("append", "operator+=", "push_back") else "s." + SYN.get(op, op)
    if q == "std::__cxx11::operator+":
        return "s.plus"
    if q in ("std::__cxx11::operator==", "std::__cxx11::operator!="):
        return "s.eq" if q.endswith("==") else "s.ne"
    k = re.match(r"^std::(function|_Function_base|_Function_handler)::(.*)$", q)
    if k:
        op = k.group(2)
        return "f.call" if op == "operator()" else "f.dtor" if op.startswith("~") else "f.ctor" if op in ("function", "_Function_base") else "f.assign" if op == "operator=" else "f." + op
    k = re.match(r"^std::(?:__)?shared_ptr(?:_access)?::(.*)$", q)
    if k:
        op = k.group(1)
        return "p.dtor" if "~" in op else "p.ctor" if op in ("shared_ptr", "__shared_ptr") else "p.assign" if op == "operator=" else "p." + op
    return None


READS = ("begin", "end", "rbegin", "rend", "size", "empty", "at", "front", "back", "find", "count", "mapget", "data", "capacity", "f.call", "s.eq", "s.ne", "s.size", "s.empty", "s.c_str", "s.data", "s.compare", "s.find", "s.begin", "s.end",
         "f.operator bool", "f._M_empty", "p.get", "p.operator bool", "p.operator->", "p.operator*", "p.use_count", "LD", "ST", "THROW")
SYNC = ("LOCK", "UNLOCK", "TRY", "WAIT", "NOTIFY")
COPY = ("ctor", "assign", "s.ctor", "s.assign", "f.ctor", "f.assign", "p.ctor", "p.assign")


def written(m, fn, y):
    """operands of the event through which objects may change"""
    if y[0] in READS or y[0] in SYNC or y[0].endswith("dtor") or y[0] == "LOOP" or not y[2]:
        return
    for k, q in enumerate(y[2]):
        if k == 0 and y[0] != "CALL":
            yield q
            continue
        if y[0] in ("STORE", "COPY", "RMW"):
            continue
        x = fn.insts[y[4]]
        if k < len(x.ops) and not m.const_param(x, k):
            yield q


def dropped(evs, y, b):
    """is the object at b the first element of a queue, removed from it after y?"""
    src = [z for z in evs if z[0] == "front" and z[3] is not None and simp(z[3]) == b]
    k = [j for j, z in enumerate(evs) if z is y]
    return bool(src) and any(z[0] == "pop" and ptr(simp(z[2][0])) == ptr(simp(src[-1][2][0])) for z in evs[k[-1]:])


def changes(facts=None):
    """what the turns of a loop leave behind: the objects they change, and what facts(m, st, events) says"""
    def f(m, st, evs):
        yield "w"
        evs = resolved(evs)
        own = {simp(y[3]) for y in evs if y[0] not in ("LOOP", "LD") and y[0] not in SYNC and y[3] is not None}
        for y in evs:
            if y[0] == "f.call":
                yield "called"
            elif y[0].isupper() and y[0] != "LOOP" and not inert(y):
                yield "CALL"
            if y[0] != "LOOP":
                for q in written(m, m.fn, y):
                    if y[0] in ("STORE", "COPY", "RMW") and ptr(simp(q))[0][0] not in ("al", "arg"):
                        continue
                    if ptr(simp(q))[0][0] == "new" or dropped(evs, y, ptr(simp(q))[0]):
                        continue
                    if ptr(simp(q))[0][0] == "hv" or ptr(simp(q))[0] in own:
                        yield "w*"      # an element the loop came by
                    elif simp(q)[0] in ("p", "al", "arg"):
                        yield ("w", simp(q))
        if facts:
            yield from facts(m, st, tuple(z for z in evs if z[0] != "LOOP"))
    return f


def resolved(evs):
    """the events, with the references that appending and assigning return replaced by the string itself"""
    out, self_of = [], {}
    for z in evs:
        if self_of and z[0] != "LOOP" and z[0] not in SYNC and any(q in self_of for q in z[2]):
            z = Ev((z[0], z[1], tuple(self_of.get(q, q) for q in z[2])) + tuple(z[3:]))
        if z[0] in ("s.append", "s.assign") and z[3] is not None and z[2]:
            self_of[z[3]] = z[2][0]
        out.append(z)
    return tuple(out)


class Trace:
    def __init__(self, e, fn=None):
        self.e, self.m, self.st = e, e.m, e.st
        self.fn = fn or e.m.fn
        def mk(z):
            if z[0] == "LOOP":
                return Ev(("LOOP", z[1], (), z[2] if len(z) > 2 else frozenset(), None, None))
            if z[0] in SYNC:
                return Ev((z[0], z[1], (), None, z[3] if z[0] in ("WAIT", "NOTIFY") else z[2], z))
            return z
        self.ev = resolved(mk(z) for z in tuple(e.pre) + tuple(e.ev))
        self.mine = self.ev[len(e.pre):]
        self.loops = [z[1] for z in self.ev if z[0] == "LOOP"]
        self.carried = {}
        self.hook = None

    def ops(self, z):
        return self.fn.insts[z[4]].ops

    def literal(self, z, k):
        o = self.ops(z)[k] if len(self.ops(z)) > k else None
        if isinstance(o, dict) and "str" in o:
            return o["str"]
        if isinstance(o, dict) and "c" in o and o.get("w") == 8:
            return chr(o["c"] & 255)
        return None

    def at(self, z):
        for k, y in enumerate(self.ev):
            if y is z:
                return k
        return len(self.ev)

    def is_copy(self, y):
        """does the event copy (or move) its second operand into its first?"""
        if y[0] in COPY:
            return len(y[2]) > 1
        if y[0] != "CALL" or len(y[2]) != 2 or not re.search(r"(\w+)::(\1|operator=)$", y[1]):
            return False
        P, s = self.fn.prog, self.fn.insts[y[4]].get("sig") or []
        if not s:
            k = re.search(r"((?:\w+::)*\w+)::(\w+|operator=)\(((?:\w+::)*\w+)(?: const)?&&?\)$", self.fn.insts[y[4]].get("dem") or "")
            return k is not None and k.group(1) == k.group(3)
        if len(s) != 3 or s[1] is None or s[2] is None:
            return False
        a, b = P.ptr_target(s[1]), P.ptr_target(s[2])
        return a is not None and a >= 0 and b is not None and b >= 0 and P.strip(a) == P.strip(b)

    # ---------------------------------------------------------- which object
    def same(self, a, b):
        a, b = simp(a), simp(b)
        return a == b or (ptr(a) == ptr(b))

    def copies(self, k, v):
        """the last copy into the object at v before event k -> (index, source value) or None"""
        for j in range(k - 1, -1, -1):
            y = self.ev[j]
            if y[0] == "LOOP" and self.is_carried(y, v):
                return None
            if y[2] and self.same(y[2][0], v) and self.is_copy(y):
                if y[2][1][0] == "c" or self.literal(y, 1) is not None:
                    return None
                return j, y[2][1]
            if y[0] in ("swap", "s.swap", "p.swap") and len(y[2]) > 1:
                for a, b in ((0, 1), (1, 0)):
                    if self.same(y[2][a], v):
                        return j, y[2][b]
            if self.writes(y, v):
                return None
        return None

    def origin(self, v, k=None):
        """the object a (copied) object comes from"""
        k = len(self.ev) if k is None else k
        v = simp(v)
        for _ in range(12):
            c = self.copies(k, v)
            if c is None:
                return v, k
            k, v = c[0], simp(c[1])
        return v, k

    def writes(self, y, v):
        """may the event change the object at v?"""
        return any(self.same(q, v) for q in written(self.m, self.fn, y))

    def is_carried(self, y, v):
        """is the object at v changed by the earlier turns of the loop that the marker y stands for?"""
        if "w" in y[3]:
            if "w*" in y[3] and ptr(simp(v))[0][0] not in ("al", "arg"):
                return True
            return any(isinstance(q, tuple) and q[0] == "w" and self.same(q[1], v) for q in y[3])
        return any(self.same(q, v) for q in self.carried.get(y[1], ()))

    def name(self, v):
        return clean(self.m.path(self.st, v)[0])

    def element(self, v, k=None):
        """how a pointer to an element was obtained: (kind, container name, detail) or None"""
        v, k = self.origin(v, k)
        b, off, var = ptr(v)
        for j in range(k - 1, -1, -1):
            y = self.ev[j]
            if y[3] is None or y[0] not in ("at", "front", "back", "mapat", "mapget", "find", "begin", "erase", "data"):
                continue
            r = simp(y[3])
            if r == b or r == v or self.same(r, v):
                c = self.container(y, j)
                if y[0] in ("mapat", "mapget", "find"):
                    return "map", c, self.text(y[2][1], j), y
                return y[0], c, (simp(y[2][1]) if len(y[2]) > 1 else None), y
        return None

    def container(self, y, k=None):
        """name of the container an event is about, seen through local copies"""
        v, _ = self.origin(y[2][0], self.at(y) if k is None else k)
        e = None
        b = ptr(v)[0]
        if b[0] in ("call",) or v[0] == "call":
            e = self.element(v, self.at(y))
        if e:
            return (e[0], e[1], e[2])
        return self.name(v).lstrip("&")

    # ---------------------------------------------------------- strings
    def text(self, v, k=None, depth=10):
        """what the string object at v is made of before event k: a tuple of parts"""
        k = len(self.ev) if k is None else k
        v = simp(v)
        if depth <= 0:
            return (("?",),)
        for j in range(k - 1, -1, -1):
            y = self.ev[j]
            t = y[0]
            if t == "LOOP" and self.is_carried(y, v):
                return (("?", "carried"),)
            if not y[2] or not any(self.same(q, v) for q in y[2]):
                continue
            first = self.same(y[2][0], v)
            if t in ("s.ctor", "s.assign") and first:
                if len(y[2]) == 1:
                    return ()
                return self.part(y, 1, j, depth)
            if t == "s.plus" and first:
                return self.part(y, 1, j, depth) + self.part(y, 2, j, depth)
            if t == "s.append" and first:
                return self.text(v, j, depth - 1) + self.part(y, 1, j, depth)
            if t == "s.swap" and len(y[2]) > 1:
                return self.text(y[2][1] if first else y[2][0], j, depth - 1)
            if t == "s.clear" and first:
                return ()
            if t == "s.substr" and first:
                return (("substr",) + self.part(y, 1, j, depth) + tuple(y[2][2:]),)
            if t == "CALL" and not self.writes(y, v):
                continue
            if t == "CALL" and first and ptr(v)[0][0] == "al":
                return (("ret", y[1], tuple(self.who(q, j) for q in y[2][1:])),)
            if t.startswith("s.") and first and t in ("s.resize", "s.insert", "s.erase", "s.replace", "s.pop_back"):
                return (("?", j),)
        if self.hook:
            return (("ld", self.hook(v, k)),)
        el = self.element(v, k)
        if el:
            return (("elem",) + el[:3],)
        return (("ld", self.name(v).lstrip("&")),)

    def part(self, y, i, j, depth):
        if len(y[2]) <= i:
            return ()
        s = self.literal(y, i)
        if s is not None:
            return (("lit", s),) if s else ()
        return self.text(y[2][i], j, depth - 1)

    def who(self, v, k):
        el = self.element(v, k)
        if el:
            return el[:3]
        v, _ = self.origin(v, k)
        return self.name(v).lstrip("&")

    # ---------------------------------------------------------- facts
    def same_end(self, cur, y):
        """is the cursor at the end given by the end() or size() event y?"""
        r = simp(y[3])
        if self.m.decide(self.st, cmpv("eq", simp(cur), r)) is True:
            return True
        if y[0] == "size":
            for p, a, b, want in (("ult", cur, r, False), ("slt", cur, r, False), ("ule", r, cur, True), ("ult", r, cur, True)):
                if self.m.decide(self.st, cmpv(p, simp(a), r if b is r else simp(b))) is want:
                    return True
        return False


def show(t):
    """a short form of a text"""
    return "+".join('"%s"' % q[1] if q[0] == "lit" else str(q[1]) if q[0] == "ld" else "<%s>" % str(q[1:2][0] if len(q) > 1 else q[0]) for q in t)


def merged(t):
    """join adjacent literals"""
    o = []
    for p in t:
        if p[0] == "lit" and o and o[-1][0] == "lit":
            o[-1] = ("lit", o[-1][1] + p[1])
        else:
            o.append(p)
    return tuple(o)


class Cursor:
    """a loop variable that walks over the elements of a container"""
    __slots__ = ("header", "phi", "src", "kind", "steps", "starts", "head", "size", "ty", "loops", "_cont")

    def __init__(self, loops, header, phi, src, kind, head, size, ty):
        self.loops, self.header, self.phi, self.src, self.kind, self.head, self.size, self.ty = loops, header, phi, src, kind, head, size, ty
        self.steps, self.starts, self._cont = set(), set(), None

    @property
    def cont(self):
        if self._cont is None:
            self._cont = "?"
            e, y = self.src
            self._cont = self.loops.cname(e, y)
            if y[0] in ("equal_range", "lower_bound") and len(y[2]) > 1:
                self._cont += "{%s}" % show(self.loops.text(e, y[2][1], self.loops.of(e).at(y)))
        return self._cont

    @property
    def whole(self):
        """starts at the first element and moves on by one"""
        return self.starts == {"first"} and self.steps == {1}


class Loops:
    def __init__(self, ends, fn):
        self.fn, self.ends = fn, ends
        self.tr = {id(e): Trace(e, fn) for e in ends}
        self.cur = {}
        car = {}
        for e in ends:
            if e.kind == "iter":
                t = self.tr[id(e)]
                for y in t.mine:
                    if y[2] and y[0] not in READS:
                        for q in y[2]:
                            if q[0] in ("p", "al", "arg") and q not in car.get(e.header, ()) and t.writes(y, q):
                                car.setdefault(e.header, set()).add(q)
        # what an inner loop changes, the outer one changes too
        m = ends[0].m if ends else None
        for h in list(car):
            for h2, lp in m.loops.items():
                if h2 != h and h in lp.body:
                    car.setdefault(h2, set()).update(car[h])
        for e in ends:
            t = self.tr[id(e)]
            t.carried = car
            t.hook = lambda v, k, e=e: self.desc(e, v, k)
        it = [e for e in ends if e.kind == "iter" and e.phis]
        for e in it:
            t = self.tr[id(e)]
            for i, (old, new) in e.phis.items():
                if old is None or new is None:
                    continue
                y = self.source(t, old)
                if y is not None:
                    if (e.header, i) not in self.cur:
                        self.cur[(e.header, i)] = Cursor(self, e.header, i, (e, y), "it", *self.payload(y))
                    self.cur[(e.header, i)].starts.add("first" if y[0] in ("begin", "data", "equal_range", "lower_bound") else "elsewhere")
                elif old[0] == "c" and linv(new)[1] != old[1] and (e.header, i) not in self.cur:
                    for z in t.mine:
                        if z[0] == "at" and len(z[2]) > 1 and linv(z[2][1]) == linv(old):
                            c = self.cur[(e.header, i)] = Cursor(self, e.header, i, (e, z), "ix", 0, 1, self.payload(z)[2])
                            c.starts.add("first" if old[1] == 0 else "elsewhere")
                            break
        for e in it:
            for i, (old, new) in e.phis.items():
                c = self.cur.get((e.header, i))
                if c is not None:
                    c.steps.add(self.step(c, old, new))

    def source(self, t, old):
        for y in reversed(t.ev):
            if y[0] in ("begin", "data", "find") and y[3] is not None and simp(y[3]) == simp(old):
                return y
            if y[0] == "lower_bound" and simp(y[3]) == simp(old):
                return y
            if y[0] == "equal_range" and y[3] is not None and old[0] == "fld" and old[1] == y[3] and old[2] == (0,):
                return y
        return None

    def payload(self, y):
        """(offset of the element in its node, its size, its type) for what the event hands out"""
        P = self.fn.prog
        s = self.fn.insts[y[4]].get("sig")
        if not s or s[0] is None or s[0] < 0:
            return 0, None, None
        d = P.strip(s[0])
        if d is not None and y[0] == "equal_range" and P.types[d].get("targs"):
            d = P.strip(P.types[d]["targs"][0])
        if d is None:
            return 0, None, None
        p = P.ptr_target(d)
        if p is None:
            n = P.types[d].get("name") or ""
            for rx, head in ((r"_Rb_tree_(const_)?iterator<", 32), (r"_List_(const_)?iterator<", 16), (r"_Node_(const_)?iterator<", 8)):
                if re.match(rx, n) and P.types[d].get("targs"):
                    p = P.strip(P.types[d]["targs"][0])
                    return head, P.types[p].get("size"), p
            mem = [m for m in P.types[d].get("mem", []) if not m["inh"]]
            p = P.ptr_target(mem[0]["ty"]) if mem else None
        return (0, P.types[p].get("size"), p) if p is not None else (0, None, None)

    def elemtype(self, y):
        return self.payload(y)[1:]

    def step(self, c, old, new):
        if new is None or old is None:
            return None
        d = lsum(linv(new), linv(old), -1)
        if not d[0] and d[1]:
            if not c.head and c.size and d[1] % c.size == 0:
                return d[1] // c.size
            return None
        if new[0] == "ld" and simp(new[1]) == simp(old) and new[2] in (0,):
            return 1  # the next node
        if new[0] == "call" and "_Rb_tree_increment" in (self.fn.insts[new[1]].callee or ""):
            return 1
        return None

    def of(self, e):
        return self.tr[id(e)]

    def delta(self, e, c, v, k):
        """offset of the object at v from the current element of the cursor, or None"""
        t = self.of(e)
        o = (e.phis or {}).get(c.phi, (None, None))[0] if e.header == c.header else t.st.env.get(c.phi)
        if o is None:
            return None
        if c.kind == "it":
            d = lsum(linv(v), linv(o), -1)
            if not d[0] and c.head <= d[1] < c.head + (c.size or 64):
                return d[1] - c.head
            return None
        b, off, var = ptr(v)
        for y in t.ev:
            if y[0] == "at" and y[3] is not None and simp(y[3]) == b and not var and linv(y[2][1]) == linv(o) and self.cname(e, y) == c.cont:
                return off
        return None

    def current(self, e, v, k=None):
        """the cursor whose current element the object at v (or what it is a copy of) is, on a turn of its loop"""
        v, k = self.of(e).origin(v, k)
        for c in self.cur.values():
            d = self.delta(e, c, v, k)
            if d is not None:
                return c
        return None

    def cname(self, e, y):
        t = self.of(e)
        return self.desc(e, y[2][0], t.at(y))

    def desc(self, e, v, k=None):
        """canonical name of an object: member path, or container[*].member for the current element of a loop"""
        t = self.of(e)
        k = len(t.ev) if k is None else k
        v, k = t.origin(v, k)
        for c in self.cur.values():
            d = self.delta(e, c, v, k)
            if d is not None:
                return c.cont + "[*]" + self.member(c.ty, d)
        b, off, var = ptr(v)
        if b[0] in ("call", "ld"):
            for j in range(min(k, len(t.ev)) - 1, -1, -1):
                y = t.ev[j]
                if y[0] in ("mapat", "mapget", "find", "front", "back", "at") and y[3] is not None and simp(y[3]) == b:
                    n = self.cname(e, y)
                    if y[0] in ("front", "back", "at"):
                        i = "front" if y[0] == "front" else "back" if y[0] == "back" else str(simp(y[2][1])[1]) if simp(y[2][1])[0] == "c" else "?"
                        return "%s[%s]%s" % (n, i, self.member(self.elemtype(y)[1], off))
                    key = show(self.text(e, y[2][1], j))
                    if y[0] == "find":
                        head, sz, ty = self.payload(y)
                        f = self.member(ty, off - head)
                        if f.startswith(".second"):
                            f = f[7:]
                        return "%s{%s}%s" % (n, key, f)
                    return "%s{%s}%s" % (n, key, self.member(self.elemtype(y)[1], off))
        if b[0] == "ld":
            w = self.desc(e, ("p", b[1], b[2], ()) if b[2] else b[1], k) if not b[3] else None
            if w and ("[*]" in w or "{" in w):
                return w + "->" + (self.pointee(b, off) if off else "")
        return t.name(v).lstrip("&")

    def text(self, e, v, k=None):
        """parts of a string, with elements of loops by canonical name"""
        t = self.of(e)
        k = len(t.ev) if k is None else k
        return merged(t.text(v, k))

    def pointee(self, b, off):
        """name of the member at an offset of what a loaded pointer points to"""
        n = self.fn.loadtype(b) if hasattr(self.fn, "loadtype") else None
        return self.member(n, off) if n is not None else "+%d" % off

    def member(self, ty, off):
        P = self.fn.prog
        if ty is None:
            return "+%d" % off if off else ""
        n = P.descend(ty, off, ())[0]
        s = clean("." + ".".join(str(q) for q in n)) if n else ""
        return re.sub(r"\.\+0$", "", s)

    def finished(self, e, c):
        """did the path leave the loop at the end of the container?"""
        t = self.of(e)
        cur = t.st.env.get(c.phi)
        if cur is None:
            return False
        if c.src[1][0] in ("equal_range", "lower_bound"):
            key = self.text(c.src[0], c.src[1][2][1], self.of(c.src[0]).at(c.src[1]))
            for y in t.ev:
                if y[0] in ("equal_range", "upper_bound") and y[3] is not None and self.cname(e, y) + "{%s}" % show(self.text(e, y[2][1], t.at(y))) == c.cont and self.text(e, y[2][1], t.at(y)) == key:
                    r = ("fld", y[3], (1,), 64) if y[0] == "equal_range" else y[3]
                    if t.m.decide(t.st, cmpv("eq", simp(cur), simp(r))) is True:
                        return True
            return False
        for y in reversed(t.ev):
            if y[0] in ("end", "size") and (y[0] == "size") == (c.kind == "ix") and self.cname(e, y) == c.cont:
                if t.same_end(cur, y):
                    return True
        return False

    def entered(self, e, c):
        return self.of(e).st.env.get(c.phi) is not None


def found(L, e, cname, key=None, k=None):
    """is the key known to be (or not to be) in the map on this path?"""
    t = L.of(e)
    evs = t.ev if k is None else t.ev[:k]
    r = None
    for y in evs:
        if y[0] == "find" and L.cname(e, y) == cname and (key is None or L.text(e, y[2][1], t.at(y)) == key):
            for z in evs:
                if z[0] == "end" and L.cname(e, z) == cname:
                    d = t.m.decide(t.st, cmpv("eq", simp(y[3]), simp(z[3])))
                    if d is not None:
                        r = not d
        elif y[0] == "count" and L.cname(e, y) == cname and (key is None or L.text(e, y[2][1], t.at(y)) == key):
            d = truthy(t.m, t.st, y[3])
            if d is None:
                from .sem import failed
                d0 = t.m.decide(t.st, cmpv("slt", ("c", 0), simp(y[3])))
                d = d0
            if d is not None:
                r = d
    return r


def isempty(L, e, name, k=None):
    """is the string (by canonical name) known to be empty on this path?"""
    t = L.of(e)
    r = None
    for y in t.ev if k is None else t.ev[:k]:
        d = None
        if y[0] == "s.empty" and L.desc(e, y[2][0], t.at(y)) == name:
            d = truthy(t.m, t.st, y[3])
        elif y[0] in ("s.eq", "s.ne"):
            a = [L.desc(e, q, t.at(y)) for q in y[2][:2]]
            x = [t.literal(y, i) for i in (0, 1)]
            if (a[0] == name and x[1] == "") or (a[1] == name and x[0] == ""):
                d = truthy(t.m, t.st, y[3])
                d = None if d is None else d if y[0] == "s.eq" else not d
        elif y[0] == "s.size" and L.desc(e, y[2][0], t.at(y)) == name:
            for q, want in ((cmpv("eq", simp(y[3]), ("c", 0)), True), (cmpv("ult", ("c", 0), simp(y[3])), False), (cmpv("ult", simp(y[3]), ("c", 1)), True)):
                b = t.m.decide(t.st, q)
                d = d if b is None else b is want
        if d is not None:
            r = d
    return r


def runs(L, e, cname):
    """the cursors that walk over the whole of the container on this path"""
    return [c for c in L.cur.values() if c.cont == cname and L.entered(e, c) and L.finished(e, c) and c.whole]
