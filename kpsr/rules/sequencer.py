"""Claiming, capacity and publication of the two sequencers."""
from ..core import prop
from ..flow import (Facts, Lin, bool_cases, cases, cond_norm, dominators, explore, facts, facts_at, lin, loops, set_hooks,
                    is_throw, thrown_type)
from ..ir import AnalysisBroken
from ..rec import (V, bit_pattern, bit_root, bits, edge_state, elem_loops, loop_exits, loop_of_header, min_fold,
                   phi_shape, throws_only)

MULTI = "disruptor4cpp::multi_producer_sequencer"
SINGLE = "disruptor4cpp::single_producer_sequencer"
SEQ_FILES = "disruptor.cpp"
GATE = ("ghost", "GATE")     # how far the slowest registered consumer has got, now
LAST = ("ghost", "LAST")     # result of the latest complete minimum over the consumers


def short(fn):
    return fn.sq.replace("disruptor4cpp::", "")


def name(fn):
    """Short name that tells overloads apart."""
    sig = fn.dem[fn.dem.rfind("("):].replace(" const", "").replace("disruptor4cpp::", "") if "(" in fn.dem else ""
    return short(fn) + (sig if len(sig) < 40 else "(..)")


class Seqr:
    """One sequencer class of one instantiation."""

    def __init__(self, c, p, cls, N):
        self.c, self.p, self.cls, self.N = c, p, cls, N
        self.fns = p.methods(cls)
        self.multi = cls == MULTI
        self.cursor = self._cursor()
        self.caches = None
        self._prep()

    def fn(self, n):
        r = [f for f in self.fns if f.sq == self.cls + "::" + n]
        if not r:
            raise AnalysisBroken("anchor not found: %s::%s" % (self.cls, n))
        return r

    def _cursor(self):
        f = self.fn("get_cursor")[0]
        for x in f.all():
            if x.op == "ret" and x.ops and isinstance(x.ops[0], int):
                y = f.insts.get(x.ops[0])
                if y is not None and y.op == "load":
                    return f.addr(y.ops[0]).key()
        raise AnalysisBroken("%s: get_cursor does not return a field" % self.cls)

    def _elem_value(self, fn):
        def ok(el, y):
            if y.op != "load":
                return False
            a = fn.addr(y.ops[0])
            return a.root[0] == "load" and el.elem_load(a.root[2])
        return ok

    def folds(self, fn, why=None):
        """Minimum folds over the registered consumer sequences."""
        r = []
        for x in fn.all():
            if x.op == "phi" and x.ty == "i64" and loop_of_header(fn, x.blk):
                fo = min_fold(fn, x.i, self._elem_value(fn), why)
                if fo and fo.vec.startswith("this."):
                    r.append(fo)
        return r

    def position_loads(self, fn, field):
        return [x for x in fn.all() if x.op == "load" and fn.addr(x.ops[0]).key() == field]

    def fields_stored(self, fn):
        r = {}
        for x in fn.all():
            if x.op == "store" and x.get("vty", "i64") == "i64":
                k = fn.addr(x.ops[1]).key()
                r.setdefault(k, []).append(x)
        return r

    def _prep(self):
        """Which fields only ever hold completed minimums (gating caches)."""
        cand = {}
        for f in self.fns:
            for x in f.all():
                if x.op == "store":
                    k = f.addr(x.ops[1]).key()
                    if k.startswith("this.") and width_of_store(f, x) == 64:
                        cand.setdefault(k, []).append((f, x))
                elif x.op in ("cmpxchg", "atomicrmw"):
                    cand.setdefault(f.addr(x.ops[0]).key(), []).append((f, x))
        foldphis = {f.name: {fo.phi.i for fo in self.folds(f)} for f in self.fns}
        self.cache_why = {}
        self.caches = {k for k in cand if k != self.cursor}
        changed = True
        while changed:
            changed = False
            for k in sorted(self.caches):
                for f, x in cand[k]:
                    ok = x.op == "store" and self._safe_value(f, x.ops[0], foldphis[f.name], k)
                    if not ok:
                        self.caches.discard(k)
                        self.cache_why[k] = f.where(x)
                        changed = True
                        break
        self.foldphis = foldphis

    def _safe_value(self, f, v, phis, self_field, depth=6):
        l = lin(f, v)
        if l.const() is not None:
            return l.c <= -1
        if not isinstance(v, int) or v < len(f.args) or depth < 0:
            return False
        if v in phis:
            return True
        x = f.insts[v]
        if x.op == "load":
            return f.addr(x.ops[0]).key() in self.caches
        if x.op == "phi":
            return all(a == v or self._safe_value(f, a, phis, self_field, depth - 1) for a, _ in x.get("inc"))
        if x.op == "select":
            return all(self._safe_value(f, a, phis, self_field, depth - 1) for a in x.ops[1:])
        return False

    def hooks(self, fn):
        inst, edge, havoc = {}, {}, {}
        for fo in self.folds(fn):
            e = fo.elems.exit
            g = Lin({GATE: 1})
            edge.setdefault(e, []).append(V(fo.phi.i) - g)
            l = Lin({LAST: 1})
            edge[e] += [V(fo.phi.i) - l, l - V(fo.phi.i)]
            havoc.setdefault(e, []).append(LAST)
        for x in fn.all():
            if x.op == "load" and fn.addr(x.ops[0]).key() in self.caches:
                inst.setdefault(x.i, []).append(V(x.i) - Lin({GATE: 1}))
            # plain fields belong to the one producer thread: they change
            # only by this function's own stores
            if x.op in ("load", "store") and x.get("ord") == "na":
                k = fn.addr(x.ops[0 if x.op == "load" else 1]).key()
                if not k.startswith("this.") or "->" in k or "[" in k or "_M_impl" in k:
                    continue
                m = ("ghost", "mem " + k)
                h = inst.setdefault(x.i, [])
                if x.op == "store":
                    h.append(("havoc", m))
                if x.op == "load" and x.ty == "i64" or x.op == "store" and width_of_store(fn, x) == 64:
                    v = V(x.i) if x.op == "load" else lin(fn, x.ops[0])
                    h += [v - Lin({m: 1}), Lin({m: 1}) - v]
        set_hooks(fn, inst, edge, havoc)

    def count(self, fn):
        """The number of slots asked for, as a linear form."""
        if len(fn.args) >= 2:
            return V(1)
        return Lin({}, 1)


def width_of_store(fn, x):
    v = x.ops[0]
    if isinstance(v, int):
        from ..rec import width
        return width(fn, v)
    return v.get("w")


def sizes(c):
    return (2, 8, 64, 1024) if c.thorough else (8,)


def seqrs(c, sz=None):
    for n in sz or sizes(c):
        p = c.program(SEQ_FILES, [r"^disruptor4cpp::(multi|single)_producer_sequencer<"], keep=[r"::signal_all_when_blocking\("],
                      defs=["KSIZE=%d" % n])
        for cls in (MULTI, SINGLE):
            s = Seqr(c, p, cls, n)
            for f in s.fns:
                c.analysed(f)
            yield s


def rets(fn):
    return [x for x in fn.all() if x.op == "ret"]


CLAIMS = ("next", "try_next")


@prop("C01", "linear-inequality dataflow over the claim functions, with recognised minimum folds over the registered consumers as the only source of gating bounds",
      "For every instantiation analysed, on every path: a returned claim is at most buffer size ahead of a value that is provably a lower bound of all registered consumers. Assumes consumer sequences never move backwards.")
def c01(c):
    c.assumption("a registered consumer's sequence never decreases (decided by C09, C12)")
    c.assumption("sequence numbers stay below 2^63 (signed overflow is not modelled)")
    c.assumption("consumers are registered before they fall behind (registration sets them to the cursor: C13)")
    for s in seqrs(c):
        for n in CLAIMS:
            for f in s.fn(n):
                why = []
                folds = s.folds(f, why)
                s.hooks(f)
                tag = "%s N=%d" % (name(f), s.N)
                c.ob("fold-present", tag, bool(folds), f.here(), "no complete minimum over the registered consumers is computed: " + "; ".join(why[:2]))
                rs = rets(f)
                c.need(rs, "%s never returns" % f.dem)
                for r in rs:
                    fa = facts_at(f, r)
                    cs = cases(f, r.ops[0], fa, r.blk)
                    ok = all(st.entails(lin(f, v).plus(-s.N) - Lin({GATE: 1}), 4) for st, v in cs)
                    c.ob("claim-bounded", tag, ok, f.where(r), "a claim can be returned although claimed - %d is not known to be at most the slowest consumer's position" % s.N)
                    cnt = s.count(f)
                    if cnt.const() is None:
                        c.ob("claim-positive", tag, fa.entails(Lin({}, 1) - cnt), f.where(r), "a request for less than one slot is accepted")
                for fo in folds:
                    for l in fo.loads:
                        c.ob("fold-acquire", tag, l.get("ord") in ("acquire", "seq_cst"), f.where(l), "consumer position is read without acquire ordering")


# ------------------------------------------------------------------ C02
def cmpxchg_of(fn, v):
    """(cmpxchg inst, polarity) if v is (the negation of) its success flag."""
    k, pol = cond_norm(fn, v)
    if k[0] == "val" and k[1][0] == "v":
        x = fn.insts.get(k[1][1])
        if x is not None and x.op == "extractvalue" and x.get("idx", [None])[0] == 1:
            cx = fn.insts.get(x.ops[0]) if isinstance(x.ops[0], int) else None
            if cx is not None and cx.op == "cmpxchg":
                return cx, pol
    return None


def eq_at(fn, x, a, b):
    d = a - b
    if not d.t:
        return d.c == 0
    fa = facts_at(fn, x)
    return fa.entails(d, 3) and fa.entails(d.scale(-1), 3)


@prop("C02", "typestate over every path of the claim functions: exactly one compare-and-set (multi) or one position update (single) whose old and new values tie to the returned sequence",
      "Decides for every path and interleaving point that a returned claim is the range installed by a successful compare-and-set from the value read (multi), or by the only update of the private position (single); the atomicity of the hardware compare-and-set is trusted.")
def c02(c):
    c.assumption("compare-and-set on the cursor is atomic; single-producer sequencers are used by one producer thread")
    for s in seqrs(c, (8,)):
        for n in CLAIMS:
            for f in s.fn(n):
                tag = name(f)
                (claims_multi if s.multi else claims_single)(c, s, f, tag)
        # who else writes the claim position
        pos = s.cursor if s.multi else single_position(s)
        c.need(pos, "claim position of %s not found" % s.cls)
        for f in s.fns:
            base = f.sq.rsplit("::", 1)[1]
            w = [x for x in f.all() if x.op in ("store", "cmpxchg", "atomicrmw") and f.addr(x.ops[1 if x.op == "store" else 0]).key() == pos]
            ctor = base == s.cls.rsplit("::", 1)[1]
            if ctor:
                init = [x for x in w if x.op == "store" and lin(f, x.ops[0]).const() == -1]
                c.ob("starts-before-first", name(f), bool(init) and len(init) == len(w), f.here(), "the claim position does not start at -1")
            elif base == "claim":
                ok = len(w) == 1 and w[0].op == "store" and lin(f, w[0].ops[0]) == V(1)
                c.ob("explicit-claim", name(f), ok, f.here(), "claim(seq) does not set the claim position to seq")
            elif base not in CLAIMS:
                c.ob("position-owner", name(f), not w, f.where(w[0]) if w else f.here(), "the claim position is changed outside the claim operations")
        for n in CLAIMS:
            c.ob("single-slot-form", s.cls.rsplit("::", 1)[1] + "::" + n, len(s.fn(n)) >= 2 and any(len(f.args) == 1 for f in s.fn(n)), s.fn(n)[0].here(), "the one-slot form is missing")


def single_position(s):
    for n in CLAIMS:
        for f in s.fn(n):
            for r in rets(f):
                l = lin(f, r.ops[0])
                for a, k in l.t.items():
                    if a[0] == "v" and k == 1 and a[1] >= len(f.args):
                        x = f.insts[a[1]]
                        if x.op == "load" and f.addr(x.ops[0]).key().startswith("this."):
                            return f.addr(x.ops[0]).key()
    return None


def claims_multi(c, s, f, tag):
    pos = s.cursor
    cnt = s.count(f)
    bad = []
    seen = set()

    def step(x, st):
        if x.op == "store" and f.addr(x.ops[1]).key() == pos:
            bad.append((x, "plain-write", "the cursor is overwritten without compare-and-set"))
            return None
        if x.op == "atomicrmw" and f.addr(x.ops[0]).key() == pos:
            bad.append((x, "plain-write", "the cursor is moved without checking the value the capacity check used"))
            return None
        if x.op == "cmpxchg" and f.addr(x.ops[0]).key() == pos and st is not None and st != "none":
            bad.append((x, "claimed-twice", "a second claim is made after one succeeded"))
            return None
        if x.op == "ret":
            seen.add(x.i)
            if st == "none":
                bad.append((x, "unowned", "a sequence is returned without a successful compare-and-set on the cursor"))
            else:
                cx = f.insts[st]
                r = lin(f, x.ops[0])
                if not eq_at(f, x, r, lin(f, cx.ops[2])):
                    bad.append((x, "returned-range", "the returned sequence is not the one installed"))
                if not eq_at(f, x, lin(f, cx.ops[2]) - lin(f, cx.ops[1]), cnt):
                    bad.append((x, "range-length", "the cursor moves by something else than the number of slots asked for"))
            return None
        if (is_throw(x) or x.op == "resume") and st != "none":
            bad.append((x, "lost-claim", "an exception leaves after the slots were claimed: they can never be published"))
            return None
        return st

    def edge(a, b, st):
        t = f.term(a)
        if t.op == "br" and t.ops and len(set(t.get("succ"))) == 2:
            cz = cmpxchg_of(f, t.ops[0])
            if cz and f.addr(cz[0].ops[0]).key() == pos:
                if (b == t.get("succ")[0]) == cz[1]:
                    return cz[0].i
        return st
    explore(f, [(f.entry, 0, "none")], step, edge)
    c.need(seen or bad, "no return of %s reached" % f.dem)
    for rule in ("plain-write", "claimed-twice", "unowned", "returned-range", "range-length", "lost-claim"):
        b = [z for z in bad if z[1] == rule]
        c.ob(rule, tag, not b, f.where(b[0][0]) if b else f.here(), b[0][2] if b else "")
    # every compare-and-set result is looked at
    for x in f.all():
        if x.op == "cmpxchg" and f.addr(x.ops[0]).key() == pos:
            c.ob("expected-is-read", tag, _is_read_of(f, x.ops[1], pos), f.where(x), "the expected value was not read from the cursor")


def _is_read_of(f, v, field):
    a = lin(f, v).atom()
    if a is None or a[0] != "v" or a[1] < len(f.args):
        return False
    x = f.insts[a[1]]
    if x.op == "load":
        return f.addr(x.ops[0]).key() == field
    if x.op == "phi":
        return all(_is_read_of(f, q, field) for q, _ in x.get("inc") if q != a[1])
    if x.op == "extractvalue":
        cx = f.insts.get(x.ops[0])
        return cx is not None and cx.op == "cmpxchg" and f.addr(cx.ops[0]).key() == field
    return False


def claims_single(c, s, f, tag):
    pos = single_position(s)
    c.need(pos, "claim position of %s not found" % s.cls)
    cnt = s.count(f)
    bad = []
    seen = set()

    def step(x, st):
        if x.op == "store" and f.addr(x.ops[1]).key() == pos:
            if st != "none":
                bad.append((x, "claimed-twice", "the position is updated twice"))
                return None
            return x.i
        if x.op == "ret":
            seen.add(x.i)
            if st == "none":
                bad.append((x, "unowned", "a sequence is returned without advancing the position"))
                return None
            w = f.insts[st]
            nv = lin(f, w.ops[0])
            if not eq_at(f, x, lin(f, x.ops[0]), nv):
                bad.append((x, "returned-range", "the returned sequence is not the new position"))
            old = nv - cnt
            if not _is_read_of_lin(f, old, pos):
                bad.append((w, "range-length", "the position moves by something else than the number of slots asked for"))
            return None
        if (is_throw(x) or x.op == "resume") and st != "none":
            bad.append((x, "lost-claim", "an exception leaves after the position was advanced"))
            return None
        return st
    explore(f, [(f.entry, 0, "none")], step)
    c.need(seen or bad, "no return of %s reached" % f.dem)
    for rule in ("claimed-twice", "unowned", "returned-range", "range-length", "lost-claim"):
        b = [z for z in bad if z[1] == rule]
        c.ob(rule, tag, not b, f.where(b[0][0]) if b else f.here(), b[0][2] if b else "")


def _is_read_of_lin(f, l, field):
    a = l.atom()
    return a is not None and a[0] == "v" and _is_read_of(f, a[1], field)


# ------------------------------------------------------------------ slots
class Slot:
    """An access to the per-slot availability table."""

    def __init__(self, fn, x, idx, root):
        self.fn, self.x, self.idx, self.root = fn, x, idx, root


def slot_index(fn, ptr):
    """(field key, index value, element size) of &this.table[index], or None."""
    a = fn.addr(ptr)
    if a.root[0] != "arg" or not a.var or len(a.var) != 1:
        return None
    iv, scale = a.var[0]
    if "[]" not in a.key():
        return None
    return a.key(), iv, scale


def slot_accesses(fn, op):
    r = []
    for x in fn.all():
        if x.op == op:
            s = slot_index(fn, x.ops[1 if op == "store" else 0])
            if s and not s[0].startswith("this.gating") and "_M_impl" not in s[0]:
                r.append((x, s[1], s[0]))
    return r


def pattern(fn, v):
    b = bits(fn, v)
    if b is None:
        return None, None
    r = bit_root(b)
    return [p if not isinstance(p, tuple) else ("b", p[2]) for p in b], r


def index_ok(pat, L):
    return pat is not None and sorted(p[1] for p in pat if isinstance(p, tuple)) == list(range(L)) \
        and all(isinstance(p, tuple) for p in pat[:L]) and all(p == 0 for p in pat[L:])


def flag_ok(ip, fp, L):
    """(index, flag) tells all sequences below 2^(L+31) apart."""
    have = {p[1] for p in ip + fp if isinstance(p, tuple)}
    return fp is not None and set(range(L + 31)) <= have


def counted_loop(fn, lp):
    """-> (phi, init, step, end) of a loop leaving only when phi reaches end
    (exclusive, in units of the phi), or None."""
    ex = [e for e in loop_exits(fn, lp) if not throws_only(fn, e[1])]
    if len(ex) != 1:
        return None
    b, s = ex[0]
    for p in [x for x in fn.blocks[lp.header] if x.op == "phi"]:
        init, step = phi_shape(fn, lp, p)
        if init is None or not step:
            continue
        st = edge_state(fn, b, s)
        t = fn.term(b)
        if t.op != "br" or not t.ops or not isinstance(t.ops[0], int):
            continue
        cnd = fn.insts.get(t.ops[0])
        if cnd is None or cnd.op != "icmp":
            continue
        d = lin(fn, cnd.ops[0]) - lin(fn, cnd.ops[1])
        k = d.t.get(("v", p.i))
        if k not in (1, -1):
            continue
        lim = (d.scale(k) - V(p.i)).scale(-1)
        leave = s == t.get("succ")[0]
        pred = cnd.get("pred")
        if k == -1:
            pred = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pred, pred)
        if not leave:
            pred = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
                    "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[pred]
        if pred in ("eq",) or (step > 0 and pred in ("sge", "uge")) or (step < 0 and pred in ("sle", "ule")):
            end = lim
        elif step > 0 and pred in ("sgt", "ugt") or step < 0 and pred in ("slt", "ult"):
            end = lim.plus(1 if step > 0 else -1)
        else:
            continue
        dom = dominators(fn)
        if not all(b in dom[l] for l in lp.latches):
            continue
        if b != lp.header:
            end = end.plus(step)
        return p, init, step, end
    return None


def fills_table(fn, N, esize):
    """Constants written over the whole table by the constructor."""
    out = []
    for x in fn.all():
        if x.is_call() and (x.callee or "").startswith("llvm.memset"):
            a = fn.addr(x.ops[0])
            if a.root[0] == "arg" and lin(fn, x.ops[2]).const() == N * esize:
                v = lin(fn, x.ops[1]).const()
                if v is not None:
                    b = v & 0xff
                    out.append((x, a.key(), int.from_bytes(bytes([b] * esize), "little")))
    for lp in loops(fn):
        cl = counted_loop(fn, lp)
        if not cl:
            continue
        p, init, step, end = cl
        total = (end - init)
        if total.t or total.c % step:
            continue
        trips = total.c // step
        for b in lp.body:
            for x in fn.blocks[b]:
                if x.op != "store" or not all(b in dominators(fn)[l] for l in lp.latches):
                    continue
                v = lin(fn, x.ops[0]).const()
                la = lin(fn, x.ops[1])
                if v is None or la.t.get(("v", p.i)) is None:
                    continue
                adv = la.t[("v", p.i)] * step
                # address at the first iteration
                first = la - V(p.i).scale(la.t[("v", p.i)]) + init.scale(la.t[("v", p.i)])
                at = [k for k, cc in first.t.items()]
                if trips == N and abs(adv) == esize and len(at) == 1 and at[0] == ("v", 0):
                    out.append((x, ("off", first.c if adv > 0 else first.c - (N - 1) * esize), v & ((1 << (8 * esize)) - 1)))
    return out


@prop("C04", "exact bit-provenance of slot index and lap flag, constructor fill analysis",
      "Proves for every sequence number below 2^(31+log2 size) and each analysed size that slot and flag identify the sequence, that writer and reader compute the same pair, and that nothing reads as published initially.")
def c04(c):
    c.assumption("fewer than 2^31 laps of the ring; then a 32 bit lap number cannot repeat")
    for s in seqrs(c, (2, 4, 8, 64, 1024) if c.thorough else (8, 64)):
        if not s.multi:
            single_availability(c, s)
            continue
        L = s.N.bit_length() - 1
        pats = []
        esz = None
        for n in ("publish",):
            for f in s.fn(n):
                acc = slot_accesses(f, "store")
                c.ob("slot-written", "%s N=%d" % (name(f), s.N), bool(acc), f.here(), "publishing writes no per-slot availability")
                for x, iv, key in acc:
                    pats.append((f, x, pattern(f, iv), pattern(f, x.ops[0]), "publish"))
                    esz = abs(f.addr(x.ops[1]).var[0][1])
        for n in ("is_available", "get_highest_published_sequence"):
            for f in s.fn(n):
                acc = slot_accesses(f, "load")
                c.ob("slot-read", "%s N=%d" % (name(f), s.N), bool(acc), f.here(), "availability is not read from the slot")
                for x, iv, key in acc:
                    cmp_ = [y for y in f.uses().get(x.i, []) if y.op == "icmp"]
                    if not cmp_:
                        c.ob("flag-compared", "%s N=%d" % (name(f), s.N), False, f.where(x), "the slot is read but not compared with the sequence's lap")
                    for y in cmp_:
                        o = y.ops[1] if y.ops[0] == x.i else y.ops[0]
                        c.ob("flag-compared", "%s N=%d" % (name(f), s.N), y.get("pred") in ("eq", "ne"), f.where(y), "the lap flag is not compared for equality")
                        pats.append((f, x, pattern(f, iv), pattern(f, o), "read"))
        c.need(pats, "no slot access in %s" % s.cls)
        for f, x, (ip, ir), (fp, fr), kind in pats:
            tag = "%s %s N=%d" % (name(f), kind, s.N)
            c.ob("slot-index", tag, index_ok(ip, L), f.where(x), "slot index is not the sequence modulo the buffer size: bits %s" % (ip,))
            if ip and fp:
                c.ob("lap-flag", tag, ir == fr and flag_ok(ip, fp, L), f.where(x), "slot and flag together do not identify the sequence: flag bits %s" % (fp[:4],))
                c.ob("writer-reader-agree", tag, (ip, fp) == (pats[0][2][0], pats[0][3][0]), f.where(x), "publisher and reader compute different slot or flag")
        # nothing is available at the start
        ctors = [f for f in s.fns if f.sq.endswith("multi_producer_sequencer::multi_producer_sequencer")]
        c.need(ctors, "constructor of %s" % s.cls)
        fp = pats[0][3][0]
        off = None
        f0, x0 = pats[0][0], pats[0][1]
        off = f0.insts[x0.ops[1]].get("off") if isinstance(x0.ops[1], int) else None
        for f in ctors:
            fl = fills_table(f, s.N, esz or 4)
            ok = False
            for x, k, v in fl:
                differs = fp and any((v >> j) & 1 and (b == 0 or (isinstance(b, tuple) and b[1] >= L + 31)) for j, b in enumerate(fp))
                if differs:
                    ok = True
            c.ob("nothing-published-initially", "%s N=%d" % (short(f), s.N), ok, f.here(), "the constructor does not mark every slot with a flag no early sequence has")
        for n in ("publish",):
            for f in s.fns:
                b = f.sq.rsplit("::", 1)[1]
                if b not in ("publish", "multi_producer_sequencer"):
                    w = slot_accesses(f, "store")
                    c.ob("slot-writers", "%s N=%d" % (name(f), s.N), not w, f.where(w[0][0]) if w else f.here(), "availability is written outside publish")


def single_availability(c, s):
    for f in s.fn("is_available"):
        tag = "%s N=%d" % (name(f), s.N)
        for r in rets(f):
            ok = True
            cur = [x for x in s.position_loads(f, s.cursor)]
            for st, val in bool_cases(f, r.ops[0], facts_at(f, r), r.blk):
                if val:
                    ok = ok and any(st.entails(V(1) - V(x.i)) for x in cur)
                else:
                    ok = ok and any(st.entails(V(x.i) - V(1).plus(-1)) for x in cur)
            c.ob("available-iff-published", tag, ok and cur, f.where(r), "availability is not 'at or below the cursor'")


# ------------------------------------------------------------------ C03
def is_signal(x):
    return x.is_call() and (x.callee or "").endswith("::signal_all_when_blocking")


@prop("C03", "typestate and range-scan analysis of publish and of the highest-published search, with memory-ordering checks",
      "On every path: all sequences of the published range are stored with release before waiters are signalled; the search stops at the first unpublished sequence and never passes the given bound.")
def c03(c):
    c.assumption("the C++ memory model gives release/acquire its meaning on the target")
    for s in seqrs(c, (8,)):
        for f in s.fn("publish"):
            (publish_multi if s.multi else publish_single)(c, s, f)
        for f in s.fn("get_highest_published_sequence"):
            (highest_multi if s.multi else highest_single)(c, s, f)
        for f in s.fn("get_cursor"):
            for r in rets(f):
                x = f.insts.get(r.ops[0]) if isinstance(r.ops[0], int) else None
                c.ob("cursor-acquire", name(f), x is not None and x.op == "load" and x.get("ord") in ("acquire", "seq_cst"), f.where(r), "the cursor is read without acquire ordering")
        if s.multi:
            for n in ("is_available", "get_highest_published_sequence"):
                for f in s.fn(n):
                    for x, iv, k in slot_accesses(f, "load"):
                        c.ob("slot-acquire", name(f), x.get("ord") in ("acquire", "seq_cst"), f.where(x), "slot availability is read without acquire ordering")


def run_publish(c, f, is_pub, tag):
    """publish events, then a signal, on every path to a return."""
    bad = []

    def step(x, st):
        if is_pub(x):
            return "pub"
        if is_signal(x):
            return "sig" if st in ("pub", "sig") else st
        if x.op == "ret":
            if st != "sig":
                bad.append((x, "no signal follows the publication" if st == "pub" else "a path returns without publishing"))
            return None
        if x.op == "resume" or is_throw(x):
            bad.append((x, "an exception leaves before waiters are signalled"))
            return None
        return st
    explore(f, [(f.entry, 0, "none")], step)
    c.ob("publish-then-signal", tag, not bad, f.where(bad[0][0]) if bad else f.here(), bad[0][1] if bad else "")


def publish_single(c, s, f):
    tag = name(f)
    hi = V(len(f.args) - 1)
    st = [x for x in f.all() if x.op == "store" and f.addr(x.ops[1]).key() == s.cursor]
    c.ob("cursor-set", tag, len(st) >= 1, f.here(), "publishing does not move the cursor")
    for x in st:
        c.ob("cursor-value", tag, lin(f, x.ops[0]) == hi, f.where(x), "the cursor is not set to the published sequence")
        c.ob("cursor-release", tag, x.get("ord") in ("release", "seq_cst"), f.where(x), "the cursor is published without release ordering")
    run_publish(c, f, lambda x: x.op == "store" and f.addr(x.ops[1]).key() == s.cursor, tag)


def publish_multi(c, s, f):
    tag = name(f)
    lo, hi = V(1), V(len(f.args) - 1)
    acc = slot_accesses(f, "store")
    c.ob("slot-set", tag, bool(acc), f.here(), "publishing marks no slot")
    events = set()
    for x, iv, key in acc:
        c.ob("slot-release", tag, x.get("ord") in ("release", "seq_cst"), f.where(x), "slot availability is published without release ordering")
        ip, root = pattern(f, iv)
        seq = lin(f, root) if root is not None else None
        if seq is None:
            c.ob("slot-sequence", tag, False, f.where(x), "cannot tell which sequence the slot stands for")
            continue
        fa = facts_at(f, x)
        c.ob("only-own-range", tag, fa.entails(lo - seq) and fa.entails(seq - hi), f.where(x), "a sequence outside the published range is marked available")
        if len(f.args) == 2:
            ok = seq == lo
            if ok:
                events.add(x.i)
            for l in loops(f) if not ok else ():
                # a walk over the range of this one sequence has marked it when it is left
                if x.blk in l.body and covers(f, l, x, seq, lo, lo)[0]:
                    ok = True
                    events |= {f.blocks[t][0].i for b, t in loop_exits(f, l)}
            c.ob("slot-sequence", tag, ok, f.where(x), "another sequence than the published one is marked")
            continue
        # a loop covering lo..hi
        lp = [l for l in loops(f) if x.blk in l.body]
        ok, why = False, "the range is not walked one sequence at a time"
        for l in lp:
            ok, why = covers(f, l, x, seq, lo, hi)
            if ok:
                break
        c.ob("whole-range", tag, ok, f.where(x), why)
    if len(f.args) == 2:
        run_publish(c, f, lambda x: x.i in events, tag)
    else:
        # in the range form an empty range publishes nothing
        bad = []

        def step(x, st):
            if x.i in {a[0].i for a in acc}:
                return "pub"
            if is_signal(x):
                return "sig"
            if x.op == "ret":
                if st != "sig":
                    bad.append((x, "no signal follows the publication"))
                return None
            return st
        explore(f, [(f.entry, 0, "none")], step)
        c.ob("publish-then-signal", tag, not bad, f.where(bad[0][0]) if bad else f.here(), bad[0][1] if bad else "")
    w = [x for x in f.all() if x.op in ("store", "cmpxchg", "atomicrmw") and f.addr(x.ops[1 if x.op == "store" else 0]).key() == s.cursor]
    c.ob("cursor-untouched", tag, not w, f.where(w[0]) if w else f.here(), "publishing moves the claim cursor")


def covers(f, lp, x, seq, lo, hi):
    """Store x marks every sequence lo..hi across the iterations of lp."""
    dom = dominators(f)
    if not all(x.blk in dom[l] for l in lp.latches):
        return False, "an iteration can skip its sequence"
    for p in [y for y in f.blocks[lp.header] if y.op == "phi"]:
        k = seq.t.get(("v", p.i))
        if k not in (1, -1):
            continue
        init, step = phi_shape(f, lp, p)
        if init is None or step is None or abs(step) != 1:
            continue
        first = seq - V(p.i).scale(k) + init.scale(k)
        up = step * k == 1
        if first != (lo if up else hi):
            # the first one must be proven equal
            return False, "the walk does not start at the %s end of the range" % ("lower" if up else "upper")
        for b, s in loop_exits(f, lp):
            if throws_only(f, s):
                continue
            st = edge_state(f, b, s)
            if st is None:
                continue
            done = seq if x.blk in dom[b] and (x.blk != b or True) else (seq.plus(-1) if up else seq.plus(1))
            good = st.entails(hi - done) if up else st.entails(done - lo)
            if not good:
                return False, "the walk can stop before the %s end of the range" % ("upper" if up else "lower")
        # the loop itself is bypassed only for an empty range
        for r in rets(f):
            from ..flow import reach
            pass
        hit = bypass(f, lp, lo, hi)
        if hit:
            return False, "the walk is skipped for a non-empty range"
        return True, ""
    return False, "the walk is not over consecutive sequences"


def bypass(f, lp, lo, hi):
    """Is there a way from entry to a return avoiding the loop, without knowing
    that the range is empty?"""
    seen = set()
    st = [f.entry]
    while st:
        b = st.pop()
        if b in seen or b == lp.header:
            continue
        seen.add(b)
        if f.term(b).op == "ret":
            fa = facts_at(f, f.term(b))
            if not fa.entails(hi - lo.plus(-1)):
                return True
        for s in f.succ[b]:
            e = edge_state(f, b, s)
            if e is not None and e.entails(hi - lo.plus(-1)):
                continue
            st.append(s)
    return False


def highest_single(c, s, f):
    tag = name(f)
    for r in rets(f):
        ok = all(lin(f, v) == V(2) or (st.entails(lin(f, v) - V(2)) and st.entails(V(2) - lin(f, v))) for st, v in cases(f, r.ops[0], facts_at(f, r), r.blk))
        c.ob("highest-exact", tag, ok, f.where(r), "the highest published sequence is not the given available one")


def highest_multi(c, s, f):
    tag = name(f)
    lo, av = V(1), V(2)
    acc = slot_accesses(f, "load")
    c.ob("highest-reads-slots", tag, bool(acc), f.here(), "no slot is examined")
    scans = []
    for x, iv, key in acc:
        ip, root = pattern(f, iv)
        if root is None:
            continue
        seq = lin(f, root)
        for lp in loops(f):
            if x.blk not in lp.body:
                continue
            for p in [y for y in f.blocks[lp.header] if y.op == "phi"]:
                init, step = phi_shape(f, lp, p)
                if step == 1 and seq.t.get(("v", p.i)) == 1 and init is not None and seq - V(p.i) + init == lo:
                    # going round again needs this slot to have matched
                    if all(_via_match(f, x, l, lp) for l in lp.latches):
                        scans.append((x, lp, seq, p))
    c.ob("scan-in-order", tag, bool(scans), f.here(), "sequences are not examined one by one from the lower bound, going on only when published")
    for r in rets(f):
        ok1 = ok2 = ok3 = True
        for st, v in cases(f, r.ops[0], facts_at(f, r), r.blk):
            l = lin(f, v)
            ok1 = ok1 and (st.entails(l - av) or any(_ran_within(f, lp, p, seq, l, av) for _, lp, seq, p in scans))
            ok2 = ok2 and (st.entails(l - lo.plus(-1)) or any(st.entails(l - seq.plus(-1)) for _, _, seq, _ in scans))
            mx = st.entails(av - l)
            if not mx:
                # stopped because the next slot did not match
                mx = any(_next_unmatched(f, x, seq, l, r, st) for x, _, seq, _ in scans)
            ok3 = ok3 and mx
        c.ob("highest-within-bound", tag, ok1, f.where(r), "a sequence beyond the available bound can be returned")
        c.ob("highest-all-published", tag, ok2, f.where(r), "a sequence can be returned although one below it was not seen published")
        c.ob("highest-exact", tag, ok3, f.where(r), "the search gives up although the next sequence is published")


def _ran_within(f, lp, p, seq, l, av):
    """One below the sequence under examination, which starts at most one past
    the bound (the barrier asks only from a sequence its bound has reached:
    C06 barrier-result-published) and goes on only from within it."""
    return l == seq.plus(-1) and all(facts_at(f, f.term(b)).entails(seq - av) for b in lp.latches)


def match_of(f, x):
    """Comparisons of slot load x: [(icmp, equal-truth)]"""
    return [y for y in f.uses().get(x.i, []) if y.op == "icmp" and y.get("pred") in ("eq", "ne")]


def _edges_of(f, y, equal):
    """Branch edges taken when comparison y says `equal`."""
    r = []
    for b in f.order:
        t = f.term(b)
        if t.op == "br" and t.ops and len(set(t.get("succ"))) == 2:
            k1, p1 = cond_norm(f, t.ops[0])
            k2, p2 = cond_norm(f, y.i)
            if k1 == k2:
                # truth of the branch value <-> truth of y
                truth_y = (y.get("pred") == "eq") == equal
                r.append((b, t.get("succ")[0] if (p1 == p2) == truth_y else t.get("succ")[1]))
    return r


def _via_match(f, x, latch, lp):
    """Inside the loop the latch is reached from x only through a match edge."""
    ms = {e for y in match_of(f, x) for e in _edges_of(f, y, True)}
    if not ms:
        return False
    # blocks reachable from the header inside the loop without a match edge
    seen, st = set(), [lp.header]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == latch and not any((b, lp.header) == e for e in ms):
            return False
        for s in f.succ[b]:
            if s in lp.body and s != lp.header and (b, s) not in ms:
                st.append(s)
    return True


def _next_unmatched(f, x, seq, l, r, st):
    """The value returned is one below the sequence whose slot did not match."""
    d = l - seq.plus(-1)
    if not (d == Lin() or (st.entails(d) and st.entails(d.scale(-1)))):
        return False
    ms = {e for y in match_of(f, x) for e in _edges_of(f, y, False)}
    return bool(ms)


# ------------------------------------------------------------------ C05
def capacity_position(s, f):
    pos = s.cursor if s.multi else single_position(s)
    return pos, s.position_loads(f, pos)


def is_refusal(x):
    return is_throw(x) and "insufficient_capacity" in thrown_type(x)


@prop("C05", "linear-inequality dataflow at every refusal, return and capacity report, against the freshly computed minimum",
      "For every path: a refusal happens only when the request does not fit before the slowest consumer as just computed; the capacity reports equal size minus outstanding.")
def c05(c):
    c.assumption("sequence arithmetic does not overflow 63 bits")
    for s in seqrs(c):
        for f in s.fn("try_next"):
            tag = "%s N=%d" % (name(f), s.N)
            s.hooks(f)
            pos, loads = capacity_position(s, f)
            n = s.count(f)
            th = [x for x in f.all() if is_refusal(x)]
            c.ob("refusal-exists", tag, bool(th), f.here(), "a full buffer is never refused")
            for x in th:
                fa = facts_at(f, x)
                ok = any(fa.entails(Lin({LAST: 1}) - (V(l.i) + n).plus(-s.N - 1), 4) for l in loads) if not fa.bot else True
                c.ob("refused-only-when-full", tag, ok, f.where(x), "the request can be refused although it fits before the slowest consumer")
            blocking(c, f, tag)
        if s.multi:
            for f in s.fn("next"):
                settles(c, s, f, "%s N=%d" % (name(f), s.N))
        for f in s.fn("has_available_capacity"):
            tag = "%s N=%d" % (name(f), s.N)
            s.hooks(f)
            pos, loads = capacity_position(s, f)
            n = V(1)
            for r in rets(f):
                okt = okf = True
                for st, val in bool_cases(f, r.ops[0], facts_at(f, r), r.blk):
                    if val:
                        okt = okt and any(st.entails(V(l.i) + n.plus(-s.N) - Lin({GATE: 1}), 4) for l in loads)
                    else:
                        okf = okf and any(st.entails(Lin({LAST: 1}) - (V(l.i) + n).plus(-s.N - 1), 4) for l in loads)
                c.ob("capacity-yes", tag, okt, f.where(r), "capacity is reported although the request would pass the slowest consumer")
                c.ob("capacity-no", tag, okf, f.where(r), "no capacity is reported although the request fits")
        for f in s.fn("remaining_capacity"):
            tag = "%s N=%d" % (name(f), s.N)
            pos, loads = capacity_position(s, f)
            ids = {("v", x.i) for x in loads}
            for r in rets(f):
                l = lin(f, r.ops[0])
                fo = {("v", x.phi.i): x for x in s.folds(f)}
                plus = [a for a, k in l.t.items() if k == 1]
                minus = [a for a, k in l.t.items() if k == -1]
                ok = l.c == s.N and len(l.t) == 2 and len(plus) == 1 and plus[0] in fo and len(minus) == 1 and minus[0] in ids
                if ok:
                    i = fo[plus[0]].init.atom()
                    ok = i in ids
                c.ob("remaining-exact", tag, ok, f.where(r), "remaining capacity is not size - (produced - consumed)")
        for f in s.fn("get_minimum_sequence"):
            tag = "%s N=%d" % (name(f), s.N)
            for r in rets(f):
                fo = min_fold(f, r.ops[0], s._elem_value(f))
                c.ob("minimum-complete", tag, fo is not None and fo.vec.startswith("this.") and (fo.init.const() or 0) >= (1 << 63) - 1, f.where(r), "the minimum over the registered consumers is not complete")
        for f in s.fn("get_buffer_size"):
            for r in rets(f):
                c.ob("size-reported", "%s N=%d" % (name(f), s.N), lin(f, r.ops[0]).const() == s.N, f.where(r), "the reported buffer size is wrong")


def settles(c, s, f, tag):
    """A waiting claim that consults the consumers again whenever the
    remembered minimum is ahead of the cursor must not remember such a value
    itself, or it never gets to the claim."""
    loads = s.position_loads(f, s.cursor)
    ahead = []
    for y in f.all():
        if y.op == "icmp" and y.get("pred") in ("sgt", "slt", "sge", "sle"):
            k = [f.addr(f.insts[a].ops[0]).key() if a in f.insts and f.insts[a].op == "load" else None for a in
                 [(lin(f, o).atom() or ("", -1))[1] for o in y.ops if isinstance(o, int)] if isinstance(a, int)]
            if s.cursor in k and any(z in s.caches for z in k if z):
                ahead.append(y)
    if not ahead:
        return
    for fo in s.folds(f):
        ok = False
        fa = facts_at(f, fo.phi)
        for l in loads:
            d = fo.init - V(l.i)
            ok = ok or d.const() is not None and d.const() <= 0 or fa.entails(d)
        c.ob("waiting-claim-settles", tag, ok, f.where(fo.phi), "with no consumer registered the remembered minimum is ahead of the cursor: the claim consults it again for ever")


def blocking(c, f, tag):
    b = [x for x in f.all() if x.is_call() and re_blocking(x.callee or "")]
    c.ob("try-does-not-block", tag, not b, f.where(b[0]) if b else f.here(), "the non-blocking claim can wait")


def re_blocking(q):
    return any(k in q for k in ("this_thread::", "condition_variable", "mutex::lock", "thread::join", "future::wait", "future::get"))
