"""Path-sensitive symbolic dataflow over one normalised function.

Walks every path of the control flow graph with a symbolic store.  Loops: the first iteration is taken exactly; from
the second on everything the loop may change is unknown, so one further pass stands for all remaining iterations.
A client sees every instruction with its operand values and keeps a hashable state of its own; the walk of a loop is
closed when the client state repeats.  No solver: conditions are decided only by constant folding, by repetition of the
same condition on the path, and by non-null knowledge.

Values are tuples:
  ('c', n)                       constant              ('null',)
  ('arg', i) ('al', id, k)       argument, alloca      ('g', name) ('f', name)
  ('ld', base, off, var, n, w)   n-th load (fresh)     ('call', id, n, w)   n-th result of that call on the path
  ('hv', n, w)                   unknown               ('op', opcode, w, a, b)   ('cast', kind, w, a)
  ('cmp', pred, a, b)            i1                    ('p', base, off, var)     pointer into base
  ('ext', v, lo, w)              bits lo..lo+w of v    ('cat', ((v, lo, w), ...))
Assumption: two different base values do not denote overlapping objects.
"""
import re

from .flow import loops as find_loops
from .ir import AnalysisBroken

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
COMM = {"add", "mul", "and", "or", "xor"}
NULL = ("null",)
T, F = ("c", 1), ("c", 0)


def tw(ty):
    """bit width of an LLVM type string"""
    if ty is None:
        return 0
    if ty == "ptr":
        return 64
    m = re.match(r"i(\d+)$", ty)
    if m:
        return int(m.group(1))
    if ty == "double":
        return 64
    if ty == "float":
        return 32
    m = re.match(r"\[(\d+) x (.*)\]$", ty)
    if m:
        return int(m.group(1)) * tw(m.group(2))
    m = re.match(r"\{ ?(.*?) ?\}$", ty)
    if m and "{" not in m.group(1):
        return sum(max(tw(t.strip()), 8) for t in m.group(1).split(","))
    m = re.match(r"<(\d+) x (.*)>$", ty)
    if m:
        return int(m.group(1)) * tw(m.group(2))
    if ty == "x86_fp80":
        return 128
    return 0


def sgn(n, w):
    if not w:
        return n
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


def width(v):
    k = v[0]
    if k in ("ld", "call", "hv"):
        return v[-1]
    if k in ("op", "cast"):
        return v[2]
    if k == "cmp":
        return 1
    if k == "ext":
        return v[3]
    if k == "cat":
        return sum(x[2] for x in v[1])
    if k in ("p", "null", "arg", "al", "g", "f"):
        return 64
    return 0


def base_of(p):
    return p[1] if p[0] == "p" else p


def ptr(p):
    """-> base, off, var"""
    return (p[1], p[2], p[3]) if p[0] == "p" else (p, 0, ())


def mkp(base, off, var=()):
    if base[0] == "p":
        off += base[2]
        var = base[3] + var
        base = base[1]
    vs = []
    for v, s in var:
        if v[0] == "c":
            off += v[1] * s
        else:
            # i + k -> constant part to the offset
            while v[0] == "op" and v[1] == "add" and v[4][0] == "c":
                off += v[4][1] * s
                v = v[3]
            vs.append((v, s))
    if off == 0 and not vs:
        return base
    return ("p", base, off, tuple(vs))


def cmpv(pred, a, b):
    if a[0] == "c" and b[0] == "null":
        b = ("c", 0)
    if b[0] == "c" and b[1] == 0 and is_ptr(a):
        b = NULL
    if a == b:
        return T if pred in ("eq", "sge", "sle", "uge", "ule") else F
    if a[0] == "c" and b[0] == "c":
        x, y = a[1], b[1]
        if pred[0] == "u":
            x, y = x & (2 ** 64 - 1), y & (2 ** 64 - 1)
        r = {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[pred if pred in ("eq", "ne") else pred[1:]]
        return T if r else F
    if pred in ("eq", "ne"):
        if b == NULL and nonnull(a) or a == NULL and nonnull(b):
            return F if pred == "eq" else T
        if base_of(a)[0] in ("al", "new") and base_of(b) != base_of(a) and nonnull(a) and base_of(b)[0] in ("al", "new", "g", "null"):
            return F if pred == "eq" else T
        if a[0] == "p" and b[0] == "p" and a[1] == b[1] and a[3] == b[3]:
            return (T if a[2] == b[2] else F) if pred == "eq" else (F if a[2] == b[2] else T)
    if (a[0] == "c" or a == NULL) and pred in SWAP:
        a, b, pred = b, a, SWAP[pred]
    elif pred in ("eq", "ne") and b[0] not in ("c", "null") and repr(b) < repr(a):
        a, b = b, a
    # comparison of a one bit value with a constant
    if b[0] == "c" and pred in ("eq", "ne") and width(a) == 1:
        t = (b[1] & 1) == 1
        return a if t == (pred == "eq") else notv(a)
    if a[0] == "cast" and a[1] == "zext" and b[0] == "c" and width(a[3]) == 1 and pred in ("eq", "ne") and b[1] in (0, 1):
        return a[3] if (b[1] == 1) == (pred == "eq") else notv(a[3])
    return ("cmp", pred, a, b)


def is_ptr(a):
    return a[0] in ("p", "arg", "al", "new", "g", "f", "null")


def notv(v):
    if v[0] == "c":
        return ("c", 0 if v[1] & 1 else 1)
    if v[0] == "cmp" and v[1] in NEG:
        return ("cmp", NEG[v[1]], v[2], v[3])
    if v[0] == "op" and v[1] == "xor" and v[4] == ("c", 1):
        return v[3]
    return ("op", "xor", 1, v, ("c", 1))


def nonnull(v):
    b, o, va = ptr(v)
    if b[0] in ("al", "new", "g", "f") or b == ("arg", "this"):
        return True
    return b != NULL and (o > 0 or len(va) > 0)


def opv(op, w, a, b):
    if a[0] == "c" and b[0] == "c":
        x, y = a[1], b[1]
        M = (1 << w) - 1 if w else -1
        try:
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                 "shl": lambda: x << y if y < 64 else None, "lshr": lambda: (x & M) >> y, "ashr": lambda: sgn(x, w) >> y,
                 "udiv": lambda: (x & M) // (y & M), "urem": lambda: (x & M) % (y & M),
                 "sdiv": lambda: int(x / y), "srem": lambda: x - y * int(x / y)}[op]()
            if r is not None:
                return ("c", sgn(r, w))
        except (KeyError, ZeroDivisionError):
            pass
    if op in COMM and a[0] == "c":
        a, b = b, a
    if op == "sub" and b[0] == "c":
        op, b = "add", ("c", -b[1])
    if b == ("c", 0) and op in ("add", "or", "xor", "shl", "lshr", "ashr"):
        return a
    if b == ("c", 0) and op in ("and", "mul"):
        return b
    if op == "and" and w == 1 and b == T:
        return a
    if op == "or" and w == 1 and b == T:
        return b
    if op == "xor" and w == 1 and b[0] == "c" and b[1] & 1:
        return notv(a)
    if a == b:
        if op in ("and", "or"):
            return a
        if op in ("xor", "sub"):
            return ("c", 0)
    if op == "add" and a[0] == "op" and a[1] == "add" and b[0] == "c" and a[4][0] == "c":
        return opv("add", w, a[3], ("c", sgn(a[4][1] + b[1], w)))
    if op in COMM and b[0] != "c" and repr(b) < repr(a):
        a, b = b, a
    # difference of two pointers into one object
    if op == "sub":
        pa, pb = strip(a), strip(b)
        if (pa[0] == "p" or pb[0] == "p") and base_of(pa) == base_of(pb):
            (_, o1, v1), (_, o2, v2) = ptr(pa), ptr(pb)
            if v1 == v2:
                return ("c", o1 - o2)
            if not v2 and len(v1) == 1 and o1 >= o2:
                r = opv("mul", w, v1[0][0], ("c", v1[0][1]))
                return opv("add", w, r, ("c", o1 - o2))
    if op in ("sdiv", "udiv", "ashr", "lshr") and b[0] == "c" and a[0] == "op" and a[1] == "mul" and a[4][0] == "c":
        k = b[1] if op in ("sdiv", "udiv") else 1 << b[1]
        if k and a[4][1] % k == 0:
            return opv("mul", w, a[3], ("c", a[4][1] // k))
    if op == "mul" and b == ("c", 1):
        return a
    if op == "shl" and b[0] == "c" and 0 <= b[1] < 62 and a[0] == "op" and a[1] == "mul":
        return opv("mul", w, a[3], ("c", a[4][1] << b[1])) if a[4][0] == "c" else ("op", op, w, a, b)
    return ("op", op, w, a, b)


def strip(v):
    while v[0] == "cast" and v[1] in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
        v = v[3]
    return v


def castv(kind, w, a):
    if a[0] == "c" and "fp" not in kind:
        return ("c", sgn(a[1], w) if kind != "zext" else a[1])
    if kind in ("bitcast", "freeze", "addrspacecast"):
        return a
    if kind == "inttoptr":
        return strip(a)
    if kind == "trunc" and a[0] == "cast" and a[1] in ("zext", "sext"):
        if width(a[3]) == w:
            return a[3]
        if width(a[3]) > w:
            return castv("trunc", w, a[3])
    if kind == "trunc" and w == 1 and a[0] == "cast" and a[1] == "zext" and width(a[3]) == 1:
        return a[3]
    if kind in ("fptoui", "fptosi") and a[0] == "cast" and a[1] in ("uitofp", "sitofp") and width(a[3]) == w:
        return a[3]  # exact below 2^53
    if kind in ("zext", "sext") and a[0] == "cast" and a[1] == "zext":
        return ("cast", "zext", w, a[3])
    return ("cast", kind, w, a)


# ------------------------------------------------------------------ bit provenance
def bits(v, w=None):
    """list of (leaf, index) or 0/1, least significant first"""
    w = w or width(v) or 64
    k = v[0]
    if k == "c":
        return [(v[1] >> i) & 1 for i in range(w)]
    if k == "null":
        return [0] * w
    if k == "cast":
        if v[1] in ("zext",):
            iw = width(v[3])
            b = bits(v[3], iw)
            return (b + [0] * w)[:w]
        if v[1] == "sext":
            iw = width(v[3])
            b = bits(v[3], iw)
            return (b + [b[-1]] * w)[:w]
        if v[1] == "trunc":
            return bits(v[3], width(v[3]))[:w]
    if k == "ext":
        return bits(v[1], width(v[1]))[v[2]:v[2] + v[3]]
    if k == "cat":
        r = []
        for x, lo, n in v[1]:
            r += bits(x, width(x) or lo + n)[lo:lo + n]
        return (r + [0] * w)[:w]
    if k == "op":
        op, a, b = v[1], v[3], v[4]
        if op == "shl" and b[0] == "c":
            return ([0] * b[1] + bits(a, w))[:w]
        if op == "mul" and b[0] == "c" and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            return ([0] * (b[1].bit_length() - 1) + bits(a, w))[:w]
        if op == "lshr" and b[0] == "c":
            return (bits(a, w)[b[1]:] + [0] * w)[:w]
        if op == "ashr" and b[0] == "c":
            x = bits(a, w)
            return (x[b[1]:] + [x[-1]] * w)[:w]
        if op in ("and", "or", "xor"):
            x, y = bits(a, w), bits(b, w)
            r = []
            for i in range(w):
                p, q = x[i], y[i]
                if op == "and":
                    r.append(0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else (v, i))
                elif op == "or":
                    r.append(1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else (v, i))
                else:
                    r.append(q if p == 0 else p if q == 0 else (v, i))
            return r
    return [(v, i) for i in range(w)]


def extv(v, lo, w):
    """bits lo..lo+w of v as a simplified value"""
    if v[0] == "c":
        return ("c", sgn(v[1] >> lo, w))
    W = width(v)
    if lo == 0 and w == W:
        return v
    if not W or lo + w > W:
        return ("ext", v, lo, w)
    b = bits(v, W)[lo:lo + w]
    r = frombits(b)
    return r if r is not None else ("ext", v, lo, w)


def frombits(b):
    w = len(b)
    if all(x in (0, 1) for x in b if not isinstance(x, tuple)) and not any(isinstance(x, tuple) for x in b):
        return ("c", sgn(sum(x << i for i, x in enumerate(b)), w))
    f = b[0]
    if isinstance(f, tuple) and all(isinstance(x, tuple) and x[0] == f[0] and x[1] == f[1] + i for i, x in enumerate(b)):
        lw = width(f[0])
        if f[1] == 0 and lw == w:
            return f[0]
        if f[1] == 0 and lw > w:
            return castv("trunc", w, f[0])
        return ("ext", f[0], f[1], w)
    # zero extended leaf
    n = w
    while n and b[n - 1] == 0:
        n -= 1
    if 0 < n < w:
        r = frombits(b[:n])
        if r is not None and r[0] != "c":
            return ("cast", "zext", w, r)
    return None


def simp(v):
    """canonical form through bit provenance (drops masks and shifts that cancel)"""
    w = width(v)
    if v[0] in ("op", "cast", "ext", "cat") and w and v[0] != "cmp":
        if v[0] == "op" and v[1] not in ("shl", "lshr", "ashr", "and", "or"):
            return v
        r = frombits(bits(v, w))
        if r is not None:
            return r
    return v


# ------------------------------------------------------------------ linear forms
def linv(v, depth=30):
    """value -> (dict atom -> coeff, const), ignoring wrap-around"""
    if v[0] == "c":
        return {}, v[1]
    if v == NULL:
        return {}, 0
    if depth > 0:
        if v[0] == "cast" and v[1] in ("zext", "sext", "ptrtoint", "inttoptr", "freeze"):
            return linv(v[3], depth - 1)
        if v[0] == "p":
            d, c = linv(v[1], depth - 1)
            d = dict(d)
            c += v[2]
            for x, s in v[3]:
                dx, cx = linv(x, depth - 1)
                for k, q in dx.items():
                    d[k] = d.get(k, 0) + q * s
                c += cx * s
            return {k: q for k, q in d.items() if q}, c
        if v[0] == "op" and v[1] in ("add", "sub"):
            d, c = linv(v[3], depth - 1)
            e, f = linv(v[4], depth - 1)
            s = 1 if v[1] == "add" else -1
            d = dict(d)
            for k, q in e.items():
                d[k] = d.get(k, 0) + s * q
            return {k: q for k, q in d.items() if q}, c + s * f
        if v[0] == "op" and v[1] == "xor" and v[4] == ("c", -1):
            d, c = linv(v[3], depth - 1)
            return {k: -q for k, q in d.items()}, -c - 1
        if v[0] == "op" and v[1] in ("mul", "shl") and v[4][0] == "c" and (v[1] == "mul" or 0 <= v[4][1] < 62):
            k0 = v[4][1] if v[1] == "mul" else 1 << v[4][1]
            d, c = linv(v[3], depth - 1)
            return {k: q * k0 for k, q in d.items() if q * k0}, c * k0
        if v[0] == "op" and v[1] in ("sdiv", "udiv", "ashr", "lshr") and v[4][0] == "c":
            # exact division of a difference (pointer arithmetic)
            k0 = v[4][1] if v[1] in ("sdiv", "udiv") else 1 << v[4][1]
            d, c = linv(v[3], depth - 1)
            if k0 and c % k0 == 0 and all(q % k0 == 0 for q in d.values()):
                return {k: q // k0 for k, q in d.items()}, c // k0
            return {("quot", tuple(sorted(d.items(), key=repr)), c, k0): 1}, 0
    return {v: 1}, 0


def lin_eq(a, b):
    d, c = linv(a)
    e, f = linv(b)
    return d == e and c == f


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("env", "mem", "facts", "c", "log", "visits", "occ", "closed", "wd", "ent")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}
        self.c = None
        self.log = None
        self.visits = {}
        self.occ = {}
        self.closed = {}
        self.wd = {}
        self.ent = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.c = self.c
        s.log = self.log
        s.visits = dict(self.visits)
        s.occ = dict(self.occ)
        s.closed = dict(self.closed)
        s.wd = self.wd
        s.ent = dict(self.ent)
        return s

    def path(self):
        r, n = [], self.log
        while n:
            r.append(n[1])
            n = n[0]
        return r[::-1]


class Client:
    """Override what is needed."""
    stable = None      # path string -> True when the field never changes after construction

    def init(self):
        return ()

    def again(self, x, st, vals):
        """the result of the call when it is known to be that of an earlier one"""
        return None

    def step(self, x, st, vals, res):
        """before the effect of x; return False to drop the path"""

    def end(self, kind, x, st, val=None):
        """kind: ret, throw (resume), exc (a call that throws through), stop (noreturn)"""

    def branch(self, x, st, cond, truth):
        """a two way branch is taken; return False to drop the path"""

    def back(self, header, st):
        """a loop iteration is complete"""

    def entry(self, header, st):
        """a loop is entered from outside"""

    def effects(self, x):
        """None (default classification), 'none', 'args' or 'all'"""

    def throws(self, x, st):
        """may this call throw?"""
        return True


LIBPURE = re.compile(r"^(llvm\.|operator new|operator delete|__cxa_|std::this_thread|std::(recursive_|timed_|shared_)*mutex::unlock|"
                     r"std::condition_variable(_any)?::notify|std::__throw|__errno_location|std::chrono|std::terminate)")
ACQ = re.compile(r"^std::(recursive_|timed_|shared_|recursive_timed_)*mutex::(lock|try_lock|lock_shared)|^std::(_V2::)?condition_variable(_any)?::wait")


class Machine:
    def __init__(self, fn, client, limit=2000000, exc=True, merge=False):
        self.merge = merge
        self.seen = set()
        self.fn = fn
        self.client = client
        self.limit = limit
        self.exc = exc
        self.n = 0
        self.steps = 0
        self.paths = 0
        self.loops = {}
        for lp in find_loops(fn):
            self.loops[lp.header] = lp
        self.escaped = self._escaped()
        self.this = 0
        if fn.args and fn.args[0]["sret"]:
            self.this = 1
        nm = fn.argvar.get(self.this, ("",))[0] if fn.args else ""
        self.thisname = nm == "this"
        self.loopinfo = {h: self._loopinfo(lp) for h, lp in self.loops.items()}

    # ------------------------------------------------------------- statics
    def _escaped(self):
        fn = self.fn
        esc = set()
        root = {}

        def rt(v):
            if not isinstance(v, int) or v < len(fn.args):
                return None
            if v in root:
                return root[v]
            root[v] = None
            x = fn.insts.get(v)
            r = None
            if x is not None:
                if x.op == "alloca":
                    r = v
                elif x.op in ("getelementptr", "bitcast", "freeze"):
                    r = rt(x.ops[0])
            root[v] = r
            return r
        # pointers that are only read through
        readonly = {x.i for x in fn.all() if x.op in ("phi", "select")}
        for x in fn.all():
            if x.op != "load":
                for o in [q for q, _ in x.get("inc")] if x.op == "phi" else x.ops:
                    if isinstance(o, int):
                        readonly.discard(o)
        for x in fn.all():
            if x.op == "store":
                r = rt(x.ops[0])
                if r is not None:
                    esc.add(r)
            elif x.op in ("phi", "select"):
                if x.ty == "ptr" and x.i in readonly:
                    continue
                for o in [q for q, _ in x.get("inc")] if x.op == "phi" else x.ops[1:]:
                    r = rt(o)
                    if r is not None:
                        esc.add(r)
            elif x.op in ("ptrtoint", "insertvalue"):
                for o in x.ops:
                    r = rt(o)
                    if r is not None:
                        esc.add(r)
        self._rt = rt
        return esc

    def _loopinfo(self, lp):
        fn = self.fn
        stores, calls = [], []
        for b in lp.body:
            for x in fn.blocks[b]:
                if x.op == "store":
                    stores.append(x.ops[1])
                elif x.op in ("cmpxchg", "atomicrmw"):
                    stores.append(x.ops[0])
                elif x.is_call():
                    calls.append(x)
        return stores, calls

    # ------------------------------------------------------------- values
    def fresh(self, w=64):
        self.n += 1
        return ("hv", self.n, w)

    def const(self, o):
        if "c" in o:
            return ("c", o["c"])
        if o.get("null"):
            return NULL
        if "g" in o:
            return ("g", o["g"])
        if "f" in o:
            return ("f", o["f"])
        if "cgep" in o:
            return mkp(self.const(o["cgep"]), o["off"])
        if "undef" in o or "poison" in o:
            return ("c", 0)
        return ("k", repr(sorted(o.items())))

    def val(self, st, o):
        if not isinstance(o, int):
            return self.const(o)
        if o < len(self.fn.args):
            v = ("arg", "this") if self.thisname and o == self.this else ("arg", o)
            return st.wd.get(v, v)
        v = st.env.get(o)
        if v is None:
            x = self.fn.insts[o]
            v = self.fresh(tw(x.ty))
            st.env[o] = v
        return v

    # ------------------------------------------------------------- memory
    def read(self, st, p, size, record=True):
        base, off, var = ptr(p)
        e = st.mem.get((base, var, off))
        if e and e[0] == size:
            return e[1]
        if e is None or e[0] != size:
            for (b, va, o), (s, v) in st.mem.items():
                if b == base and va == var and o <= off and off + size <= o + s:
                    return extv(v, (off - o) * 8, size * 8)
            pcs, o, ok = [], off, True
            while o < off + size:
                e = st.mem.get((base, var, o))
                if e is None or o + e[0] > off + size:
                    ok = False
                    break
                pcs.append((e[1], 0, e[0] * 8))
                o += e[0]
            if ok and pcs:
                return simp(("cat", tuple(pcs)))
        if self.client.stable and base[0] in ("arg", "ld") and self.client.stable(self.path(st, p)[0]):
            return ("ld", base, off, var, 0, size * 8)
        self.n += 1
        v = ("ld", base, off, var, self.n, size * 8)
        if record and size:
            st.mem[(base, var, off)] = (size, v)
        return v

    def write(self, st, p, size, v):
        base, off, var = ptr(p)
        self.clobber(st, base, off, size, var)
        if size:
            st.mem[(base, var, off)] = (size, v)

    def clobber(self, st, base, off, size, var=()):
        dead = []
        for k, (s, v) in st.mem.items():
            b, va, o = k
            if b != base:
                continue
            if va == var:
                if o < off + size and off < o + s:
                    dead.append(k)
                    # keep the untouched flanks of a larger piece
                    continue
            else:
                sc = {abs(q) for _, q in va} | {abs(q) for _, q in var}
                m = min(sc) if sc else 0
                if m and size and s and size <= m and s <= m:
                    a1, a2 = off % m, o % m
                    if a1 + size <= a2 or a2 + s <= a1:
                        continue
                dead.append(k)
        for k in dead:
            s, v = st.mem.pop(k)
            if k[1] == var:
                lo = k[2]
                if lo < off:
                    st.mem[(base, var, lo)] = (off - lo, extv(v, 0, (off - lo) * 8))
                if off + size < lo + s:
                    st.mem[(base, var, off + size)] = (lo + s - off - size, extv(v, (off + size - lo) * 8, (lo + s - off - size) * 8))

    def local(self, base):
        return base[0] == "al" and base[1] not in self.escaped

    def havoc_shared(self, st):
        for k in [k for k in st.mem if not self.local(k[0])]:
            del st.mem[k]

    def havoc_base(self, st, base, off=None, size=None):
        for k in [k for k in st.mem if k[0] == base]:
            if off is not None and not k[1] and (k[2] + st.mem[k][0] <= off or k[2] >= off + size):
                continue
            del st.mem[k]

    # ------------------------------------------------------------- paths to text
    def path(self, st, p, hint=None):
        """-> (string, DI type of the pointee) of an address value"""
        P = self.fn.prog
        base, off, var = ptr(p)
        s, t = self.root(st, base)
        if hint is not None and t is None:
            t = hint
        segs, ty, chain = P.descend(t, off, [(None, q) for _, q in var])
        if segs:
            s += ("" if s.endswith("->") else ".") + ".".join(segs)
        return s.replace(".[]", "[]"), ty

    def root(self, st, b):
        fn, P = self.fn, self.fn.prog
        if b[0] == "arg":
            i = self.this if b[1] == "this" else b[1]
            r, _, _, t = fn._base(i)
            return r[1], t
        if b[0] == "al":
            r, _, _, t = fn._base(b[1])
            return "%s#%d" % (r[1], b[1]), t
        if b[0] == "ld":
            s, t = self.path(st, mkp(b[1], b[2], b[3]))
            return s + "->", P.ptr_target(t) if t is not None else None
        if b[0] in ("call", "new"):
            x = fn.insts.get(b[1])
            t = fn.valtype(b[1])
            return "%s()" % (x.callee or "?"), P.ptr_target(t) if t is not None else None
        if b[0] == "g":
            return "@" + b[1], None
        return b[0], None

    def show(self, st, v, d=5):
        k = v[0]
        if k == "c":
            return str(v[1])
        if k == "null":
            return "null"
        if k == "ld":
            return "[%s]" % self.path(st, mkp(v[1], v[2], v[3]))[0]
        if k in ("p", "arg", "al", "g"):
            return "&" + self.path(st, v)[0] if k != "arg" else self.root(st, v)[0]
        if k == "call" or k == "new":
            return "%s()" % (self.fn.insts[v[1]].callee or "?")
        if d <= 0:
            return "…"
        if k == "op":
            return "(%s %s %s)" % (self.show(st, v[3], d - 1), v[1], self.show(st, v[4], d - 1))
        if k == "cast":
            return self.show(st, v[3], d)
        if k == "cmp":
            return "(%s %s %s)" % (self.show(st, v[2], d - 1), v[1], self.show(st, v[3], d - 1))
        if k == "ext":
            return "%s<%d:%d>" % (self.show(st, v[1], d - 1), v[2], v[3])
        return k

    # ------------------------------------------------------------- conditions
    def decide(self, st, v):
        """-> True, False or None"""
        if v[0] == "c":
            return bool(v[1] & 1)
        k, pol = self._canon(v)
        if k in st.facts:
            return st.facts[k] == pol
        if v[0] == "op" and v[2] == 1 and v[1] in ("and", "or"):
            a, b = self.decide(st, v[3]), self.decide(st, v[4])
            if v[1] == "and":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if v[0] == "op" and v[2] == 1 and v[1] == "xor":
            a, b = self.decide(st, v[3]), self.decide(st, v[4])
            return None if a is None or b is None else a != b
        if v[0] == "sel":
            a = self.decide(st, v[1])
            if a is not None:
                return self.decide(st, v[2] if a else v[3])
        if v[0] == "cmp":
            a, b = v[2], v[3]
            a2 = st.facts.get(("is", a), a)
            b2 = st.facts.get(("is", b), b)
            if a2 != a or b2 != b:
                w = cmpv(v[1], a2, b2)
                if w != v:
                    return self.decide(st, w)
            if v[1] in ("eq", "ne") and b[0] == "c":
                # known different constants
                if ("isnot", a, b) in st.facts:
                    return v[1] == "ne"
            for q in ("eq",):
                k2, p2 = self._canon(("cmp", "eq", a, b))
                if st.facts.get(k2) == p2:
                    return v[1] in ("eq", "sle", "sge", "ule", "uge")
            if v[1] in ("slt", "sgt", "sle", "sge", "ult", "ugt", "ule", "uge"):
                # strictness
                strict = {"sle": "slt", "sge": "sgt", "ule": "ult", "uge": "ugt"}.get(v[1])
                if strict:
                    k2, p2 = self._canon(("cmp", strict, a, b))
                    if st.facts.get(k2) == p2:
                        return True
                weak = {"slt": "sle", "sgt": "sge", "ult": "ule", "ugt": "uge"}.get(v[1])
                if weak:
                    k2, p2 = self._canon(("cmp", weak, a, b))
                    if st.facts.get(k2) == (not p2):
                        return False
                if v[1] == "ugt" and b == ("c", 0):
                    k2, p2 = self._canon(cmpv("eq", a, b))
                    if k2 in st.facts:
                        return st.facts[k2] != p2
        return None

    @staticmethod
    def _canon(v):
        pol = True
        while True:
            if v[0] == "op" and v[1] == "xor" and v[2] == 1 and v[4] == ("c", 1):
                v, pol = v[3], not pol
                continue
            if v[0] == "cmp":
                p, a, b = v[1], v[2], v[3]
                if p in ("sgt", "sge", "ugt", "uge"):
                    p, a, b = SWAP[p], b, a
                if p in ("ne", "sle", "ule"):
                    # a <= b  ==  !(b < a)
                    if p == "ne":
                        return ("cmp", "eq", a, b), not pol
                    p, a, b, pol = p[0] + "lt", b, a, not pol
                if p in ("ult", "slt") and a[0] == "c" and b[0] != "c" and (0 if p == "ult" else -(1 << 31)) <= a[1] < (1 << 31) - 1:
                    # c < x  ==  !(x < c + 1)
                    a, b, pol = b, ("c", a[1] + 1), not pol
                if p == "ult" and b == ("c", 1):
                    p, b = "eq", ("c", 0)
                return ("cmp", p, a, b), pol
            return v, pol

    def assume(self, st, v, truth):
        """False when contradictory"""
        d = self.decide(st, v)
        if d is not None:
            return d == truth
        k, pol = self._canon(v)
        t = truth == pol
        st.facts[k] = t
        if k[0] == "cmp" and k[1] == "eq":
            a, b = k[2], k[3]
            if b[0] == "c" or b == NULL:
                if t:
                    st.facts[("is", a)] = b
                else:
                    st.facts[("isnot", a, b)] = True
            elif t:
                # equal values: prefer the older name
                pass
        if v[0] == "op" and v[2] == 1:
            if v[1] == "and" and truth or v[1] == "or" and not truth:
                return self.assume(st, v[3], truth) and self.assume(st, v[4], truth)
        return True

    # ------------------------------------------------------------- running
    def run(self):
        st = State()
        st.c = self.client.init()
        work = [(st, self.fn.entry, None, 0)]
        while work:
            st, b, prev, pos = work.pop()
            if prev is not None:
                ok = self.enter(st, prev, b)
                if not ok:
                    continue
            self.block(st, b, pos, work)
        return self

    def enter(self, st, prev, b):
        """take the edge prev -> b: phis, loop bookkeeping"""
        fn = self.fn
        lp = self.loops.get(b)
        phis = [x for x in fn.blocks[b] if x.op == "phi"]
        new = {}
        for x in phis:
            for v, pb in x.get("inc"):
                if pb == prev:
                    new[x.i] = self.val(st, v)
        if lp is None:
            st.env.update(new)
            return True
        if prev not in lp.body:
            st.visits[b] = 1
            st.closed[b] = frozenset()
            for h, l2 in self.loops.items():
                if h != b and h in lp.body:
                    st.visits.pop(h, None)
            st.env.update(new)
            self.client.entry(b, st)
            if self.merge:
                self.n += 1
                st.ent[b] = (self.n, st.copy())
            return True
        self.phis = {x.i: (st.env.get(x.i), new.get(x.i)) for x in phis}
        r = self.client.back(b, st)
        if r is False:
            return False
        # flags keep their value: there are only two
        flag = {x.i: new[x.i] for x in phis if x.i in new and tw(x.ty) in (1, 8) and all(v is not None and v[0] == "c" and v[1] in (0, 1) for v in (new[x.i], st.env.get(x.i)))}
        key = (st.c, tuple(sorted(flag.items())))
        if self.merge and not self.rejoin(st, b, key, new):
            self.paths += 1
            return False
        if key in st.closed.get(b, ()):
            self.paths += 1
            return False
        st.closed[b] = st.closed.get(b, frozenset()) | {key}
        if len(st.closed[b]) > 12:
            raise AnalysisBroken("loop does not settle in %s" % fn.sq)
        st.visits[b] = st.visits.get(b, 1) + 1
        self.havoc_loop(st, b)
        for x in phis:
            if new.get(x.i) != st.env.get(x.i):
                st.env[x.i] = flag[x.i] if x.i in flag else self.fresh(tw(x.ty))
        return True

    def rejoin(self, st, b, key, new):
        """every turn that ends alike goes on as one: with what was known on entry, less what the loop changes"""
        sid, s0 = st.ent[b]
        same = tuple(sorted(i for i, v in new.items() if v == s0.env.get(i)))
        if (b, sid, key, same) in self.seen:
            return False
        self.seen.add((b, sid, key, same))
        loops = {k: v for k, v in st.facts.items() if k[0] == "loop"}
        st.env, st.mem, st.facts = dict(s0.env), dict(s0.mem), dict(s0.facts)
        st.facts.update(loops)
        return True

    def havoc_loop(self, st, h):
        lp = self.loops[h]
        fn = self.fn
        stores, calls = self.loopinfo[h]
        # values computed inside the loop are recomputed; forget them so that nothing stale is used
        for b in lp.body:
            if b == h:
                continue
            for x in fn.blocks[b]:
                st.env.pop(x.i, None)
        for o in stores:
            v = self.inv(st, o, lp)
            if v is not None:
                base, off, var = ptr(v)
                self.havoc_base(st, base)
                continue
            a = fn.addr(o)
            if a.root[0] == "alloca":
                for k in [k for k in st.mem if k[0][0] == "al" and k[0][1] == a.root[2]]:
                    del st.mem[k]
            else:
                self.havoc_shared(st)
        for x in calls:
            e = self.effect(x)
            if e == "all":
                self.havoc_shared(st)
            if e in ("all", "args"):
                for o in x.ops:
                    r = self._rt(o) if isinstance(o, int) else None
                    if r is not None:
                        if self.const_param(x, x.ops.index(o)):
                            continue
                        for k in [k for k in st.mem if k[0][0] == "al" and k[0][1] == r]:
                            del st.mem[k]
                    elif isinstance(o, int) and e == "args" and self.isptr(o) and not self.const_param(x, x.ops.index(o)):
                        v = self.inv(st, o, lp)
                        if v is not None:
                            self.arg_effect(st, x, x.ops.index(o), v)
                        elif o >= len(fn.args) and fn.insts[o].ty == "ptr":
                            self.havoc_shared(st)

    def inv(self, st, o, lp):
        fn = self.fn
        if not isinstance(o, int):
            return self.const(o)
        if o < len(fn.args):
            return self.val(st, o)
        x = fn.insts[o]
        if x.blk not in lp.body:
            return st.env.get(o)
        if x.op == "getelementptr" and x.get("off") is not None and not x.get("var"):
            b = self.inv(st, x.ops[0], lp)
            return mkp(b, x.get("off")) if b is not None else None
        return None

    def effect(self, x):
        e = self.client.effects(x)
        if e:
            return e
        c = x.callee
        if c is None:
            return "all"
        if c.startswith("llvm.mem"):
            return "args"
        if LIBPURE.match(c):
            return "none"
        if ACQ.match(c):
            return "all"
        if c.startswith("std::function::operator()") or c.startswith("std::_Function"):
            return "all"
        if c.startswith("std::") or c.startswith("__gnu_cxx") or c.startswith("operator") or "::" not in c:
            return "args"
        return "all"

    def const_param(self, x, k):
        """is the k-th operand passed as pointer/reference to const?"""
        dem = x.get("dem") or ""
        sret = 1 if x.get("sret") else 0
        ps = params(dem)
        if not dem and x.get("ind") is not None:
            return self.fn.virtual_const(x, k - (1 if x.get("sret") else 0))
        if ps is None:
            return False
        member = is_member(x, len(ps), sret)
        j = k - sret - (1 if member else 0)
        if j == -1 and member:
            return dem.endswith(" const")
        if 0 <= j < len(ps):
            if re.search(r"\bconst ?[&*]+$", ps[j].strip()):
                return True
            # what is built from an object that stays does not change it
            return FORWARD.match(dem) is not None and re.search(r"[^&]&$", ps[j].strip()) is not None
        return False

    def arg_effect(self, st, x, k, v):
        b, off, var = ptr(v)
        if b[0] in ("c", "null", "g", "f", "k"):
            return
        if x.callee == "__atomic_compare_exchange" and x.ops[0].get("c"):
            self.clobber(st, b, off, x.ops[0]["c"], var)
            return
        sz = None
        if b[0] in ("arg", "ld"):
            _, t = self.path(st, v)
            if t is not None and not var:
                sz = self.fn.prog.types[t].get("size")
        if sz:
            self.havoc_base(st, b, off, sz)
        else:
            self.havoc_base(st, b)

    def call_effect(self, st, x, vals):
        e = self.effect(x)
        if e == "all":
            self.havoc_shared(st)
        if e in ("all", "args"):
            for k, v in enumerate(vals):
                if k < len(x.ops) and not isinstance(x.ops[k], int):
                    continue
                if isinstance(x.ops[k], int) and not self.isptr(x.ops[k]):
                    continue
                if self.const_param(x, k):
                    continue
                self.arg_effect(st, x, k, v)

    def isptr(self, o):
        if o < len(self.fn.args):
            return self.fn.args[o].get("ty", "ptr") == "ptr"
        return self.fn.insts[o].ty == "ptr"

    def block(self, st, b, pos, work):
        fn, cl = self.fn, self.client
        lst = fn.blocks[b]
        for x in lst[pos:]:
            self.steps += 1
            if self.steps > self.limit:
                raise AnalysisBroken("path limit in %s" % fn.sq)
            op = x.op
            if op == "phi":
                continue
            if op == "br":
                if not x.ops or len(set(x.get("succ"))) == 1:
                    work.append((st, x.get("succ")[0], b, 0))
                    return
                v = self.val(st, x.ops[0])
                d = self.decide(st, v)
                for k, truth in ((1, False), (0, True)):
                    if d is not None and d != truth:
                        continue
                    s2 = st.copy() if d is None and truth is False else st
                    if not self.assume(s2, v, truth):
                        continue
                    if cl.branch(x, s2, v, truth) is False:
                        continue
                    work.append((s2, x.get("succ")[k], b, 0))
                return
            if op == "switch":
                v = self.val(st, x.ops[0])
                v = st.facts.get(("is", v), v)
                if v[0] == "c":
                    tgt = x.get("def")
                    for c, s in x.get("cases"):
                        if c == v[1]:
                            tgt = s
                    work.append((st, tgt, b, 0))
                    return
                s2 = st.copy()
                ok = True
                for c, s in x.get("cases"):
                    s3 = st.copy()
                    w = cmpv("eq", v, ("c", c))
                    if self.assume(s3, w, True) and cl.branch(x, s3, w, True) is not False:
                        work.append((s3, s, b, 0))
                    ok = ok and self.assume(s2, w, False)
                if ok:
                    work.append((s2, x.get("def"), b, 0))
                return
            if op == "ret":
                self.paths += 1
                cl.end("ret", x, st, self.val(st, x.ops[0]) if x.ops else None)
                return
            if op == "resume":
                self.paths += 1
                cl.end("throw", x, st)
                return
            if op == "unreachable":
                self.paths += 1
                cl.end("stop", x, st)
                return
            if op in ("call", "invoke"):
                r = self.call(st, x, b, work)
                if r is None:
                    return
                continue
            if op == "select" and x.ty == "ptr":
                # one way for each object
                v, p, q = [self.val(st, o) for o in x.ops]
                if p != q and self.decide(st, v) is None:
                    s2 = st.copy()
                    for s3, truth, r in ((s2, False, q), (st, True, p)):
                        if self.assume(s3, v, truth):
                            s3.env[x.i] = r
                            work.append((s3, b, None, lst.index(x) + 1))
                    return
            st.env[x.i] = None
            if not self.simple(st, x):
                return

    def simple(self, st, x):
        cl, op = self.client, x.op
        env = st.env
        if op == "store":
            v, p = self.val(st, x.ops[0]), self.val(st, x.ops[1])
            sz = (tw(x.get("vty")) + 7) // 8
            if cl.step(x, st, (v, p), None) is False:
                return False
            if x.get("ord") in ("na", "unordered", None):
                self.write(st, p, sz, v)
            else:
                b, o, va = ptr(p)
                self.clobber(st, b, o, sz, va)
            env.pop(x.i, None)
            return True
        if op == "load":
            p = self.val(st, x.ops[0])
            w = tw(x.ty)
            if x.get("ord") in ("na", "unordered", None):
                r = self.read(st, p, (w + 7) // 8)
                if w == 1:
                    r = castv("trunc", 1, r)
            else:
                b, o, va = ptr(p)
                self.n += 1
                r = ("ld", b, o, va, self.n, w)
            env[x.i] = r
            return cl.step(x, st, (p,), r) is not False
        if op == "getelementptr":
            if x.get("off") is None:
                env[x.i] = self.fresh(64)
                return True
            env[x.i] = mkp(self.val(st, x.ops[0]), x.get("off"), tuple((strip_ext(self.val(st, v)), s) for v, s in x.get("var")))
            return True
        if op == "alloca":
            k = st.occ.get(x.i, 0)
            env[x.i] = ("al", x.i, k)
            return True
        if op == "icmp":
            env[x.i] = cmpv(x.get("pred"), simp(self.val(st, x.ops[0])), simp(self.val(st, x.ops[1])))
            return True
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast", "uitofp", "sitofp", "fptoui", "fptosi"):
            env[x.i] = castv(op, tw(x.ty), self.val(st, x.ops[0]))
            return True
        if op == "select":
            c, a, b = [self.val(st, o) for o in x.ops]
            d = self.decide(st, c)
            if d is not None:
                env[x.i] = a if d else b
            elif a == b:
                env[x.i] = a
            elif x.ty == "i1" and b == F:
                env[x.i] = opv("and", 1, c, a)
            elif x.ty == "i1" and a == T:
                env[x.i] = opv("or", 1, c, b)
            else:
                env[x.i] = ("sel", c, a, b, tw(x.ty))
            return True
        if op == "cmpxchg":
            vals = tuple(self.val(st, o) for o in x.ops)
            n = st.occ[x.i] = st.occ.get(x.i, 0) + 1
            res = ("cx", x.i, self.n, tw(x.ty))
            self.n += 1
            env[x.i] = res
            if cl.step(x, st, vals, res) is False:
                return False
            b, o, va = ptr(vals[0])
            self.clobber(st, b, o, 16, va)
            return True
        if op == "atomicrmw":
            vals = tuple(self.val(st, o) for o in x.ops)
            self.n += 1
            res = ("rmw", x.i, self.n, tw(x.ty))
            env[x.i] = res
            if cl.step(x, st, vals, res) is False:
                return False
            b, o, va = ptr(vals[0])
            self.clobber(st, b, o, 16, va)
            return True
        if op == "fence":
            env.pop(x.i, None)
            return cl.step(x, st, (), None) is not False
        if op == "extractvalue":
            v = self.val(st, x.ops[0])
            env[x.i] = fieldv(v, tuple(x.get("idx")), tw(x.ty))
            return True
        if op == "insertvalue":
            a, b = self.val(st, x.ops[0]), self.val(st, x.ops[1])
            d = dict(a[1]) if a[0] == "agg" else {}
            if a[0] != "agg" and a[0] not in ("k", "c"):
                d[()] = a
            d[tuple(x.get("idx"))] = b
            env[x.i] = ("agg", tuple(sorted(d.items(), key=repr)))
            return True
        if op == "landingpad":
            self.n += 1
            env[x.i] = ("lp", x.i, self.n)
            return cl.step(x, st, (), env[x.i]) is not False
        if len(x.ops) == 2:
            env[x.i] = opv(op, tw(x.ty), self.val(st, x.ops[0]), self.val(st, x.ops[1]))
            return True
        env[x.i] = self.fresh(tw(x.ty))
        return True

    def call(self, st, x, b, work):
        """-> True to go on in this block, None when continued through work"""
        fn, cl = self.fn, self.client
        vals = tuple(self.val(st, o) for o in x.ops)
        c = x.callee or ""
        w = tw(x.ty)
        n = st.occ[x.i] = st.occ.get(x.i, 0) + 1
        self.n += 1
        res = None
        if x.ty and x.ty != "void":
            if c.startswith("operator new"):
                res = ("new", x.i, self.n, 64)
            elif c in ("llvm.eh.typeid.for",):
                res = ("tid", repr(x.ops))
            elif c.startswith("llvm.umax") or c.startswith("llvm.umin") or c.startswith("llvm.smax") or c.startswith("llvm.smin"):
                res = ("op", c.split(".")[1], w, vals[0], vals[1])
            elif c.startswith("llvm.expect"):
                res = vals[0]
            else:
                res = cl.again(x, st, vals) or ("call", x.i, self.n, w)
            st.env[x.i] = res
        if c == "__atomic_compare_exchange":
            size = vals[0][1]
            s2 = st.copy()
            st.env[x.i] = T
            s2.env[x.i] = F
            for s, r in ((s2, F), (st, T)):
                if cl.step(x, s, vals, r) is False:
                    continue
                bb, o, va = ptr(vals[1])
                self.clobber(s, bb, o, size, va)
                if r == F:
                    self.n += 1
                    self.write(s, vals[2], size, ("ld", bb, o, va, self.n, size * 8))
                work.append((s, b, None, x.pos + 1))
            return None
        if c == "__atomic_load":
            size = vals[0][1]
            if cl.step(x, st, vals, None) is False:
                return None
            bb, o, va = ptr(vals[1])
            self.n += 1
            self.write(st, vals[2], size, ("ld", bb, o, va, self.n, size * 8))
            return True
        if c in ("__atomic_store", "__atomic_exchange"):
            if cl.step(x, st, vals, None) is False:
                return None
            bb, o, va = ptr(vals[1])
            self.clobber(st, bb, o, vals[0][1], va)
            if c == "__atomic_exchange":
                self.n += 1
                self.write(st, vals[3], vals[0][1], ("ld", bb, o, va, self.n, vals[0][1] * 8))
            return True
        if cl.step(x, st, vals, res) is False:
            return None
        if x.get("noreturn"):
            thr = c.startswith("__cxa_") or c.startswith("std::__throw") or (not x.get("nounwind"))
            if x.op == "invoke":
                work.append((st, x.get("unwind"), b, 0))
            else:
                self.paths += 1
                cl.end("throw" if thr else "stop", x, st)
            return None
        if x.op == "invoke" or (self.exc and not x.get("nounwind") and not c.startswith("llvm.")):
            if cl.throws(x, st):
                s2 = st.copy()
                self.call_effect(s2, x, vals)
                if x.op == "invoke":
                    work.append((s2, x.get("unwind"), b, 0))
                else:
                    self.paths += 1
                    cl.end("exc", x, s2)
        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
            self.memcpy(st, vals)
        elif c.startswith("llvm.memset"):
            sz = vals[2][1] if vals[2][0] == "c" else None
            bb, o, va = ptr(vals[0])
            if sz and vals[1] == ("c", 0):
                self.clobber(st, bb, o, sz, va)
                for q in range(0, sz, 8):
                    s = min(8, sz - q)
                    st.mem[(bb, va, o + q)] = (s, ("c", 0))
            else:
                self.havoc_base(st, bb)
        elif c == "std::lock" and "std::unique_lock<" in (x.get("dem") or ""):
            # each of the lock objects keeps its mutex and owns it from here on
            for v in vals:
                keep = self.read(st, v, 8, record=False)
                self.write(st, v, 8, keep)
                self.write(st, mkp(v, 8), 1, ("c", 1))
        else:
            self.call_effect(st, x, vals)
        if x.op == "invoke":
            work.append((st, x.get("normal"), b, 0))
            return None
        return True

    def memcpy(self, st, vals):
        sz = vals[2][1] if vals[2][0] == "c" else None
        db, do, dv = ptr(vals[0])
        sb, so, sv = ptr(vals[1])
        if sz is None:
            self.havoc_base(st, db)
            return
        pcs = [(o - so, s, v) for (b, va, o), (s, v) in st.mem.items() if b == sb and va == sv and so <= o and o + s <= so + sz]
        if not pcs and sz <= 16:
            pcs = [(0, sz, self.read(st, vals[1], sz))]
        self.clobber(st, db, do, sz, dv)
        for o, s, v in pcs:
            st.mem[(db, dv, do + o)] = (s, v)


def strip_ext(v):
    """index operands: sign or zero extension does not matter to us"""
    while v[0] == "cast" and v[1] in ("zext", "sext"):
        v = v[3]
    return v


def fieldv(v, idx, w):
    if v[0] == "agg":
        d = dict(v[1])
        if idx in d:
            return d[idx]
        for k in range(len(idx)):
            if idx[:k] in d:
                return fieldv(d[idx[:k]], idx[k:], w)
    return ("fld", v, idx, w)


_pcache = {}


# arguments are forwarded to a constructor: an lvalue is copied from
FORWARD = re.compile(r"^(?:[^(]*\s)?std::(?:make_(?:shared|unique|pair|tuple)<|(?:__cxx11::)?(?:list|vector|deque|map|multimap|set|multiset|unordered_map|unordered_multimap)<.*>::(?:emplace|emplace_back|emplace_front|emplace_hint|try_emplace)(?:<|\())")


def params(dem):
    """parameter types of a demangled signature, or None"""
    if dem in _pcache:
        return _pcache[dem]
    s = re.sub(r"( const| volatile|&+|\[abi:\w+\])*$", "", dem)
    r = None
    if s.endswith(")"):
        d, i = 0, len(s) - 1
        while i >= 0:
            if s[i] in ")>}]" and not (s[i] == ">" and i and s[i - 1] == "-"):
                d += 1
            elif s[i] in "(<{[":
                d -= 1
                if d == 0 and s[i] == "(":
                    break
            i -= 1
        body = s[i + 1:-1]
        r, cur, d = [], "", 0
        for ch in body:
            if ch in "(<[{":
                d += 1
            elif ch in ")>]}":
                d -= 1
            if ch == "," and d == 0:
                r.append(cur)
                cur = ""
            else:
                cur += ch
        if cur.strip():
            r.append(cur)
    _pcache[dem] = r
    return r


def is_member(x, np, sret):
    return len(x.ops) - sret == np + 1


def run(fn, client, **kw):
    return Machine(fn, client, **kw).run() if not isinstance(client, type) else None
