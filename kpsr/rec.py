"""Recognisers: complete iteration over containers, minimum folds, integer
range scans, and exact bit provenance of integer expressions."""
from .flow import (Facts, Lin, cases, dominators, dominates, edge_facts, facts, lin, loops, value_facts, vec_atoms,
                   vector_field, _vec_size)
from .ir import AnalysisBroken


def V(i):
    return Lin({("v", i): 1})


# ------------------------------------------------------------------ bits
def bits(fn, v, depth=40):
    """Bits of an integer value, least significant first: 0, 1 or
    ("b", atom, k) = bit k of an opaque value.  None when not exact."""
    if not isinstance(v, int):
        if "c" in v and "w" in v:
            return [(v["c"] >> k) & 1 for k in range(v["w"])]
        return None
    w = width(fn, v)
    if w is None:
        return None
    me = [("b", v, k) for k in range(w)]
    if v < len(fn.args) or depth <= 0:
        return me
    x = fn.insts[v]
    o = x.op
    if o in ("zext", "sext", "trunc"):
        b = bits(fn, x.ops[0], depth - 1)
        if b is None:
            return me
        if o == "trunc":
            return b[:w]
        return b + [0 if o == "zext" else b[-1]] * (w - len(b))
    if o == "freeze":
        return bits(fn, x.ops[0], depth - 1)
    if o in ("and", "or", "xor"):
        a, b = bits(fn, x.ops[0], depth - 1), bits(fn, x.ops[1], depth - 1)
        if a is None or b is None:
            return me
        r = []
        for p, q in zip(a, b):
            if q in (0, 1) and p not in (0, 1):
                p, q = q, p
            if p in (0, 1) and q in (0, 1):
                r.append(p & q if o == "and" else p | q if o == "or" else p ^ q)
            elif p == 0:
                r.append(0 if o == "and" else q)
            elif p == 1:
                if o == "and":
                    r.append(q)
                elif o == "or":
                    r.append(1)
                else:
                    return me
            elif p == q:
                r.append(0 if o == "xor" else p)
            else:
                return me
        return r
    if o in ("shl", "lshr", "ashr", "udiv", "urem", "mul", "sdiv", "srem"):
        a, b = bits(fn, x.ops[0], depth - 1), x.ops[1]
        if a is None or isinstance(b, int) or "c" not in b:
            return me
        c = b["c"]
        if o in ("udiv", "urem", "mul", "sdiv", "srem"):
            if c <= 0 or c & (c - 1):
                return me
            k = c.bit_length() - 1
            if o in ("sdiv", "srem") and a[-1] != 0 and not (isinstance(a[-1], tuple) and a[-1][2] == 63):
                # exact only where the sign is that of the whole sequence
                # number, never negative (stated domain); a truncated one can be
                return me
            if o == "mul":
                o, c = "shl", k
            elif o in ("udiv", "sdiv"):
                o, c = ("lshr" if o == "udiv" else "ashr"), k
            else:
                return a[:k] + [0] * (w - k)
        if c < 0 or c >= w:
            return me
        if o == "shl":
            return [0] * c + a[:w - c]
        return a[c:] + [0 if o == "lshr" else a[-1]] * c
    return me


def width(fn, v):
    if v < len(fn.args):
        t = fn.args[v].get("ty", "")
    else:
        t = fn.insts[v].ty or ""
    if t.startswith("i") and t[1:].isdigit():
        return int(t[1:])
    return None


def bit_root(b):
    """The single opaque value a bit vector is made of, or None."""
    if b is None:
        return None
    r = {p[1] for p in b if p not in (0, 1)}
    return r.pop() if len(r) == 1 else None


def bit_pattern(b, root):
    """Bit vector with the root abstracted: list of 0/1/k."""
    return [p if p in (0, 1) and not isinstance(p, tuple) else ("b", p[2]) if isinstance(p, tuple) else p for p in b]


# ------------------------------------------------------------------ phis and loops
def loop_of_header(fn, b):
    for lp in loops(fn):
        if lp.header == b:
            return lp
    return None


def phi_shape(fn, lp, p):
    """-> (init Lin or None, step or None) of a header phi."""
    init, steps = None, set()
    for v, frm in p.get("inc"):
        l = lin(fn, v)
        if frm in lp.body:
            d = l - V(p.i)
            steps.add(d.const() if not d.t else None)
        else:
            if init is not None and init != l:
                return None, None
            init = l
    if len(steps) != 1 or None in steps:
        return init, None
    return init, steps.pop()


def loop_exits(fn, lp):
    """Normal exit edges of a loop (exceptional ones and dead ends left out)."""
    r = []
    for b in lp.body:
        t = fn.term(b)
        for s in fn.succ[b]:
            if s in lp.body:
                continue
            if t.op == "invoke" and s == t.get("unwind"):
                continue
            r.append((b, s))
    return r


def throws_only(fn, b, seen=None):
    """Every path from block b ends in an exception leaving the function."""
    seen = seen or set()
    if b in seen:
        return True
    seen.add(b)
    t = fn.term(b)
    if t.op == "ret":
        return False
    return all(throws_only(fn, s, seen) for s in fn.succ[b])


class Elems:
    """A loop that visits every element of a vector exactly once."""

    def __init__(self, fn, lp, vec, addr, exit_edge, reverse):
        self.fn, self.lp, self.vec, self.addr, self.exit, self.reverse = fn, lp, vec, addr, exit_edge, reverse

    def is_slot(self, ptr):
        """ptr (SSA value) is the address of the current element."""
        return vec_atoms(self.fn, lin(self.fn, ptr)) == self.addr

    def elem_load(self, v):
        """v is the value of the current element."""
        fn = self.fn
        if not isinstance(v, int) or v < len(fn.args):
            return False
        x = fn.insts.get(v)
        return x is not None and x.op == "load" and x.blk in self.lp.body and self.is_slot(x.ops[0])


def elem_loops(fn, esize=8):
    r = []
    for lp in loops(fn):
        e = elem_loop(fn, lp, esize)
        if e:
            r.append(e)
    return r


def elem_loop(fn, lp, esize=8):
    ex = [e for e in loop_exits(fn, lp) if not throws_only(fn, e[1])]
    if len(ex) != 1:
        return None
    b, s = ex[0]
    dom = dominators(fn)
    t = fn.term(b)
    if t.op != "br" or not t.ops or not isinstance(t.ops[0], int):
        return None
    c = fn.insts.get(t.ops[0])
    if c is None or c.op != "icmp":
        return None
    exit_when = s == t.get("succ")[0]
    pred = c.get("pred")
    if not exit_when:
        pred = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
                "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[pred]
    # `pred` is now the condition under which the loop is left
    d = _abs(fn, lin(fn, c.ops[0]) - lin(fn, c.ops[1]), esize)
    if not all(b == l or b in dom[l] for l in lp.latches):
        return None
    at_header = b == lp.header
    for p in [x for x in fn.blocks[lp.header] if x.op == "phi"]:
        init, step = phi_shape(fn, lp, p)
        if init is None or step is None or step == 0:
            continue
        init = _abs(fn, init, esize)
        me = V(p.i)
        coef = d.t.get(("v", p.i))
        if coef not in (1, -1):
            continue
        e = d.scale(coef)               # me + rest  <pred'> 0
        pr = pred if coef == 1 else {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
                                     "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}[pred]
        lim = (e - me).scale(-1)         # left when me <pr> lim
        # vectors mentioned
        vecs = {a[1] for a in list(init.t) + list(lim.t) if a[0] in ("_M_start", "_M_finish", "_M_size")}
        for vec in vecs:
            S, F, N = Lin({("_M_start", vec): 1}), Lin({("_M_finish", vec): 1}), Lin({("_M_size", vec): 1})
            for kind in ("ptr", "idx"):
                unit = esize if kind == "ptr" else 1
                lo, hi = (S, F) if kind == "ptr" else (Lin(), N)
                if abs(step) != unit:
                    continue
                for shift in (0, 1, -1):
                    # first value of the position variable, and the value on leaving
                    if step > 0:
                        first = init.plus(-shift * unit)
                        if first != lo:
                            continue
                        okexit = _exit_at(pr, lim, hi.plus(shift * unit), at_header, step, True)
                        addr = me.plus(-shift * unit) if kind == "ptr" else S + me.plus(-shift).scale(esize)
                        rev = False
                    else:
                        # descending: element visited is position - shift, first is hi - 1 unit
                        first = init.plus(-shift * unit)
                        if first != hi.plus(-unit):
                            continue
                        okexit = _exit_at(pr, lim, lo.plus(-unit + shift * unit), at_header, step, False)
                        addr = me.plus(-shift * unit) if kind == "ptr" else S + me.plus(-shift).scale(esize)
                        rev = True
                    if okexit and (at_header or _guarded(fn, lp, vec, esize)):
                        return Elems(fn, lp, vec, addr, (b, s), rev)
    return None


def _exit_at(pr, lim, end, at_header, step, up):
    """The loop is left exactly when the position (tested at the header, or
    before the increment at the bottom) has become `end`."""
    if not at_header:
        end = end.plus(-step)
    if pr == "eq":
        return lim == end
    if up and pr in ("uge", "sge"):
        return lim == end
    if up and pr in ("ugt", "sgt"):
        return lim == end.plus(-1)
    if not up and pr == "sle":
        return lim == end
    if not up and pr == "slt":
        return lim == end.plus(1)
    return False


def _guarded(fn, lp, vec, esize):
    """A bottom-tested loop is entered only when the vector is not empty."""
    for p in fn.pred[lp.header]:
        if p in lp.body:
            continue
        if not _nonempty(fn, p, lp.header, vec, esize, set()):
            return False
    return True


def _nonempty(fn, b, s, vec, esize, seen):
    if (b, s) in seen:
        return False
    seen.add((b, s))
    t = fn.term(b)
    if t.op == "br" and t.ops and len(set(t.get("succ"))) == 2 and isinstance(t.ops[0], int):
        c = fn.insts.get(t.ops[0])
        if c is not None and c.op == "icmp":
            d = _abs(fn, lin(fn, c.ops[0]) - lin(fn, c.ops[1]), esize)
            truth = s == t.get("succ")[0]
            S, F, N = Lin({("_M_start", vec): 1}), Lin({("_M_finish", vec): 1}), Lin({("_M_size", vec): 1})
            same = d in (S - F, F - S, N, N.scale(-1))
            if same and ((c.get("pred") == "eq" and not truth) or (c.get("pred") == "ne" and truth)):
                return True
    ps = fn.pred[b]
    return bool(ps) and all(_nonempty(fn, q, b, vec, esize, seen) for q in ps)


def _abs(fn, l, esize):
    """Vector begin, end and size as symbolic atoms."""
    t = {}
    for a, c in l.t.items():
        if a[0] == "v":
            vf = vector_field(fn, a[1])
            if vf:
                a = (vf[1], vf[0])
        elif a[0] == "x":
            inner = a
            if a[1] in ("sdiv", "udiv", "ashr", "lshr"):
                n = _size_of(fn, a, esize)
                if n:
                    a = ("_M_size", n)
        t[a] = t.get(a, 0) + c
    return Lin(t, l.c)


def _size_of(fn, a, esize):
    div = a[3][1] if a[1] in ("sdiv", "udiv") else 1 << a[3][1]
    if div != esize:
        return None
    m = {}
    for it in a[2][1:-1]:
        k, c = it
        if k[0] != "v":
            return None
        vf = vector_field(fn, k[1])
        if not vf:
            return None
        m[vf[1]] = (vf[0], c[1])
    if m.get("_M_finish", (0, 0))[1] == 1 and m.get("_M_start", (0, 0))[1] == -1 and m["_M_finish"][0] == m["_M_start"][0]:
        return m["_M_start"][0]
    return None


# ------------------------------------------------------------------ minimum folds
class Fold:
    def __init__(self, vec, init, phi, loads, elems):
        self.vec, self.init, self.phi, self.loads, self.elems = vec, init, phi, loads, elems


def min_fold(fn, v, is_elem_value, why=None):
    """v is the minimum of an initial value and a value read from every element
    of one vector.  is_elem_value(elems, value) says whether a value was read
    from the current element.  -> Fold or None (why collects reasons)."""
    why = why if why is not None else []
    if not isinstance(v, int) or v < len(fn.args):
        return None
    x = fn.insts[v]
    hops = 0
    # the result may pass through exit phis that only forward it
    while x.op == "phi" and loop_of_header(fn, x.blk) is None and hops < 6:
        srcs = {a if isinstance(a, int) else str(a) for a, _ in x.get("inc")}
        if len(srcs) != 1:
            break
        a = srcs.pop()
        if not isinstance(a, int) or a < len(fn.args):
            return None
        x = fn.insts[a]
        hops += 1
    if x.op != "phi":
        return None
    lp = loop_of_header(fn, x.blk)
    if lp is None:
        # a merge of an early-out with a fold: not a single fold
        return None
    el = elem_loop(fn, lp)
    if el is None:
        why.append("the loop at %s does not visit every registered sequence" % fn.where(fn.term(x.blk)))
        return None
    if el.exit[0] != lp.header:
        why.append("result is taken before the last element is folded")
        return None
    init = None
    loads = []
    me = V(x.i)
    for a, frm in x.get("inc"):
        if frm not in lp.body:
            l = lin(fn, a)
            if init is not None and init != l:
                return None
            init = l
            continue
        st = facts(fn).get(frm)
        if st is None or st.bot:
            continue
        st = st.copy()
        for y in fn.blocks[frm]:
            value_facts(fn, y, st)
        t = fn.term(frm)
        if t.op == "br" and t.ops and len(set(t.get("succ"))) == 2:
            st.assume(fn, t.ops[0], x.blk == t.get("succ")[0])
        elem = [y for b in lp.body for y in fn.blocks[b] if y.op in ("load", "call", "invoke") and y.ty == "i64" and is_elem_value(el, y)]
        elem = [y for y in elem if y.blk == frm or y.blk in dominators(fn)[frm]]
        if not elem:
            why.append("an iteration reaches its end without reading the element's value (%s)" % fn.where(t))
            return None
        for f, val in cases(fn, a, st, frm, 6):
            if f.contradictory():
                continue
            nv = lin(fn, val)
            good = None
            for e in elem:
                ev = V(e.i)
                if f.entails(nv - me) and f.entails(nv - ev) and (nv == me or nv == ev or (f.entails(me - nv) or f.entails(ev - nv)) or _is_min(fn, val, x.i, e.i)):
                    good = e
                    break
            if good is None:
                why.append("an iteration can keep a value that is not the minimum of the running value and the element (%s)" % fn.where(t))
                return None
            if good not in loads:
                loads.append(good)
    if init is None or not loads:
        return None
    return Fold(el.vec, init, x, loads, el)


def _is_min(fn, v, a, b):
    if isinstance(v, int) and v >= len(fn.args):
        x = fn.insts[v]
        if x.is_call() and (x.callee or "").startswith("llvm.smin") and set(map(str, x.ops[:2])) == {str(a), str(b)}:
            return True
    return False


# ------------------------------------------------------------------ range scans
class Scan:
    def __init__(self, lp, phi, step, init):
        self.lp, self.phi, self.step, self.init = lp, phi, step, init


def edge_state(fn, b, s):
    st = facts(fn).get(b)
    if st is None or st.bot:
        return None
    st = st.copy()
    for y in fn.blocks[b]:
        value_facts(fn, y, st)
    t = fn.term(b)
    if t.op == "br" and t.ops and len(set(t.get("succ"))) == 2:
        st.assume(fn, t.ops[0], s == t.get("succ")[0])
    if st.contradictory():
        return None
    return st


# ------------------------------------------------------------------ booleans
def bool_root(fn, v, depth=12):
    """(value id, polarity): v is true exactly when the one-bit content of the
    value is `polarity`.  Value id is a load, call, rmw, extractvalue ..."""
    pol = True
    while depth > 0 and isinstance(v, int) and v >= len(fn.args):
        depth -= 1
        x = fn.insts[v]
        if x.op in ("trunc", "zext", "freeze"):
            v = x.ops[0]
        elif x.op == "and" and lin(fn, x.ops[1]).const() == 1:
            v = x.ops[0]
        elif x.op == "xor" and lin(fn, x.ops[1]).const() in (1, -1):
            pol = not pol
            v = x.ops[0]
        elif x.op == "icmp" and x.get("pred") in ("eq", "ne", "ugt", "ult"):
            a, b = x.ops
            p = x.get("pred")
            if not isinstance(a, int):
                a, b = b, a
                p = {"ugt": "ult", "ult": "ugt"}.get(p, p)
            k = lin(fn, b).const() if not isinstance(b, int) else None
            if k is None:
                break
            if p == "eq" and k == 0 or p == "ne" and k == 1 or p == "ult" and k == 1:
                pol = not pol
            elif p == "ne" and k == 0 or p == "eq" and k == 1 or p == "ugt" and k == 0:
                pass
            else:
                break
            w = _truth_width(fn, a)
            if k == 1 and p != "ult" and not w:
                break
            v = a
        else:
            break
    return v, pol


def _truth_width(fn, v):
    """v is known to be 0 or 1."""
    b = bits(fn, v)
    return b is not None and all(p == 0 for p in b[1:])


def branch_on(fn, b):
    """(root value, {successor: truth of the root}) of a two-way branch."""
    t = fn.term(b)
    if t.op != "br" or not t.ops or len(set(t.get("succ"))) != 2:
        return None, {}
    v, pol = bool_root(fn, t.ops[0])
    s = t.get("succ")
    return v, {s[0]: pol, s[1]: not pol}


def throw_types(fn, b):
    """Types thrown on the way out of block b, when every path throws."""
    seen, st, r = set(), [b], set()
    while st:
        z = st.pop()
        if z in seen:
            continue
        seen.add(z)
        for x in fn.blocks[z]:
            if x.is_call() and x.callee == "__cxa_throw":
                o = x.ops[1]
                r.add(o.get("g", "?") if isinstance(o, dict) else "?")
        st += fn.succ[z]
    return r


# ------------------------------------------------------------------ moving symbols
def move(fn, reps, a, b, cap=5):
    """Linear expressions (all equal) after edge a -> b."""
    if not reps:
        return reps
    dead = {x.i for x in fn.blocks[b] if x.ty}
    from .flow import atom_ids
    new = []
    for p in fn.blocks[b]:
        if p.op != "phi":
            break
        for v, frm in p.get("inc"):
            if frm == a:
                l = lin(fn, v)
                for r in reps:
                    d = r - l
                    if not d.t:
                        m = V(p.i).plus(d.c)
                        if m not in new:
                            new.append(m)
                break
    if not new:
        new = [r for r in reps if not any(atom_ids(k) & dead for k in r.t)]
    # far behind: forgotten
    return tuple(sorted([r for r in new if abs(r.c) <= 4][:cap], key=repr))


def same(fn, x, a, reps):
    """Linear form a provably equals one of the representations at x."""
    from .flow import facts_at
    for r in reps or ():
        if not (a - r).t and (a - r).c == 0:
            return True
    fa = facts_at(fn, x)
    for r in reps or ():
        d = a - r
        if fa.entails(d, 3) and fa.entails(d.scale(-1), 3):
            return True
    return False


def aliases(fn, x, l, ks=(-1, 0, 1)):
    """Other values known at x to equal the linear form, up to a small constant."""
    from .flow import facts_at
    fa = facts_at(fn, x)
    atoms = {a for k in fa.le for a, _ in k if a[0] == "v"}
    r = [l]
    for a in sorted(atoms, key=repr):
        for k in ks:
            m = Lin({a: 1}, k)
            d = m - l
            if d.t and fa.entails(d, 2) and fa.entails(d.scale(-1), 2):
                r.append(m)
    return tuple(r[:6])


# ------------------------------------------------------------------ exceptions
def catch_test(fn, b):
    """(type, {successor: matched}) when block b ends by testing the caught
    exception against a type."""
    t = fn.term(b)
    if t.op != "br" or not t.ops or len(set(t.get("succ"))) != 2 or not isinstance(t.ops[0], int):
        return None, {}
    c = fn.insts.get(t.ops[0])
    if c is None or c.op != "icmp" or c.get("pred") not in ("eq", "ne"):
        return None, {}
    for o in c.ops:
        if isinstance(o, int) and o in fn.insts and fn.insts[o].callee == "llvm.eh.typeid.for":
            g = fn.insts[o].ops[0]
            s = t.get("succ")
            eq = c.get("pred") == "eq"
            return (g.get("g") if isinstance(g, dict) else "?"), {s[0]: eq, s[1]: not eq}
    return None, {}


STD_BASE = {"_ZTISt9exception"}


def exc_filter(fn, a, b, kind):
    """Follows a typed catch test: returns the refined exception kind (a set of
    thrown types or None for 'anything'), or False when the edge is impossible."""
    ty, m = catch_test(fn, a)
    if ty is None or b not in m:
        return kind
    if kind is None:
        return kind
    if m[b]:
        r = frozenset(k for k in kind if k == ty or ty in STD_BASE and k != "other")
        return r if r else False
    r = frozenset(k for k in kind if k != ty and not (ty in STD_BASE and k != "other"))
    return r if r else False
