"""Ring storage, sequence counter, sequence group and gating registration."""
import os
import subprocess

from ..build import CLANG, VERIF, flags, par
from ..core import prop
from ..flow import (Lin, bool_cases, dominators, explore, facts, facts_at, lin, loops, vec_atoms)
from ..ir import AnalysisBroken
from ..rec import (V, _abs, bit_root, bits, bool_root, branch_on, edge_state, elem_loop, elem_loops, loop_exits, loop_of_header,
                   min_fold, throws_only)
from .sequencer import MULTI, SINGLE, counted_loop, index_ok, name, pattern, seqrs, single_position
from .waiting import ACQ, REL

RING = "disruptor4cpp::ring_buffer"


def compiles(src):
    """Type-level witness: does the snippet compile against the repository?"""
    cmd = [CLANG] + flags() + ["-fsyntax-only", "-x", "c++", "-"]
    r = subprocess.run(cmd, input=src, capture_output=True, text=True)
    return r.returncode == 0, r.stderr


HDR = "#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>\nusing namespace disruptor4cpp;\n"


def witness(c, rule, cases, hdr=HDR):
    """cases: (name, body, should compile, message)"""
    base, err = compiles(hdr)
    c.need(base, "the witnessed header does not compile: %s" % err[:300])
    for (n, body, good, msg), (ok, err) in zip(cases, par([lambda b=b: compiles(hdr + b) for _, b, _, _ in cases])):
        where = ""
        for l in err.splitlines():
            if "error:" in l:
                where = l.split(": error:")[0]
                break
        c.ob(rule, n, ok == good, where, msg)


@prop("C10", "exact bit-provenance of the slot address, constructor loop analysis, and compile-fail witnesses for size and copying",
      "Proves for every 64-bit sequence number and each analysed size that the slot is sequence modulo size, inside the storage, and distinct for distinct residues; invalid sizes and copies are shown not to compile.")
def c10(c):
    for n in (2, 8, 64, 1024) if c.thorough else (8, 64):
        p = c.program("disruptor.cpp", [r"^disruptor4cpp::ring_buffer<.*>::(ring_buffer\(|operator\[\])"], keep=[r"_producer_sequencer\("], defs=["KSIZE=%d" % n])
        L = n.bit_length() - 1
        bases = {}
        for f in p.find(RING + "::operator[]"):
            c.analysed(f)
            tag = "operator[]%s %s N=%d" % (" const" if f.dem.endswith("const") else "", "multi" if "type)1" in f.dem else "single", n)
            for r in [x for x in f.all() if x.op == "ret"]:
                a = f.addr(r.ops[0])
                ok = a.root[0] == "arg" and a.root[2] == 0 and len(a.var) == 1 and isinstance(a.var[0][0], int)
                c.ob("slot-address", tag, ok, f.where(r), "the event is not taken from the ring's own storage by one index")
                if not ok:
                    continue
                ip, root = pattern(f, a.var[0][0])
                c.ob("slot-index", tag, index_ok(ip, L) and root == 1, f.where(r), "the slot is not the sequence modulo the buffer size")
                bases.setdefault("multi" if "type)1" in f.dem else "single", set()).add((a.off, a.var[0][1]))
                arr = [t for t, s in a.chain if s == "[]"]
                tot = p.types[arr[0]]["size"] if arr else 0
                c.ob("slot-storage", tag, tot == n * abs(a.var[0][1]), f.where(r), "the storage does not have one slot per residue (%s bytes)" % tot)
        for k, s in bases.items():
            c.ob("one-layout", "%s N=%d" % (k, n), len(s) == 1, "", "the two access operators disagree")
        for f in p.find(RING + "::ring_buffer"):
            if len(f.args) < 2:
                continue
            c.analysed(f)
            by = "initializer" if "std::function" in f.dem else "value"
            tag = "ring_buffer(%s) %s N=%d" % (by, "multi" if "type)1" in f.dem else "single", n)
            ok = False
            for lp in loops(f):
                cl = counted_loop(f, lp)
                if not cl:
                    continue
                ph, init, step, end = cl
                t = end - init
                if t.t or step == 0 or t.c % step or t.c // step != n:
                    continue
                base = bases.get("multi" if "type)1" in f.dem else "single", set())
                sites = [x for b in lp.body for x in f.blocks[b] if (x.op == "store" or x.is_call()) and each_slot(f, x, ph, init, step, n, base)]
                if by == "value":
                    # every iteration with a value given writes the slot
                    ok = ok or any(x.op == "store" and store_unless_null(f, lp, x) for x in sites)
                else:
                    dom = dominators(f)
                    ok = ok or any(x.is_call() and "operator()" in (x.callee or "") and all(x.blk in dom[l] for l in lp.latches) for x in sites)
            c.ob("every-slot-initialised", tag, ok, f.here(), "not every slot is initialised exactly once")
    ev = "struct E { long v; };\n"
    T = "template class disruptor4cpp::ring_buffer<E, %s, busy_spin_wait_strategy, producer_type::%s, sequence>;\n"
    cs = []
    for k in ("multi", "single"):
        for n in (2, 8, 1 << 16):
            cs.append(("size %d %s accepted" % (n, k), ev + T % (n, k), True, "a power-of-two size does not compile"))
        for n in (0, 3, 6, 12, 1000):
            cs.append(("size %d %s rejected" % (n, k), ev + T % (n, k), False, "a ring whose size is not a power of two compiles"))
    R = "using R = ring_buffer<E, 8, busy_spin_wait_strategy, producer_type::multi, sequence>;\n"
    cs += [("event needs default constructor", "struct E { E(int); };\n" + T % (8, "multi"), False, "an event type without default constructor compiles"),
           ("ring copy rejected", ev + R + "void f(R &a) { R b(a); }\n", False, "a ring can be copied"),
           ("ring assignment rejected", ev + R + "void f(R &a, R &b) { a = b; }\n", False, "a ring can be assigned"),
           ("ring move rejected", ev + R + "void f(R &a) { R b(static_cast<R &&>(a)); }\n", False, "a ring can be moved"),
           ("sequence copy rejected", "void f(sequence &a) { sequence b(a); }\n", False, "a sequence counter can be copied"),
           ("sequence assignment rejected", "void f(sequence &a, sequence &b) { a = b; }\n", False, "a sequence counter can be assigned"),
           ("barrier copy rejected", ev + R + "void f(R::sequence_barrier_type &a) { R::sequence_barrier_type b(a); }\n", False, "a barrier can be copied"),
           ("slots on separate cache lines", ev + "static_assert(alignof(cache_line_storage<E>) >= 64 && sizeof(cache_line_storage<E>) % 64 == 0, \"\");\nstatic_assert(alignof(sequence) >= 64 && sizeof(sequence) >= 64, \"\");\n", True, "slots or sequences share cache lines")]
    witness(c, "type-witness", cs)


def each_slot(f, x, ph, init, step, n, base):
    """The address written (or passed) walks the n slots, one per round."""
    if len(base) != 1:
        return False
    off, stride = list(base)[0]
    for o in (x.ops[1:2] if x.op == "store" else x.ops[1:]):
        if not isinstance(o, int):
            continue
        a = f.addr(o)
        if a.root[0] != "arg" or a.root[2] != 0 or len(a.var) != 1:
            continue
        l = lin(f, a.var[0][0]).scale(a.var[0][1])
        k = l.t.get(("v", ph.i))
        if k is None:
            continue
        first = l - V(ph.i).scale(k) + init.scale(k)
        if first.t:
            continue
        at = a.off + first.c
        if k * step == stride and at == off or k * step == -stride and at == off + (n - 1) * stride:
            return True
    return False


def store_unless_null(f, lp, x):
    """Inside the loop body x is skipped only when the value pointer is null."""
    seen, st, ok = set(), [lp.header], True
    while st:
        b = st.pop()
        if b in seen or b == x.blk:
            continue
        seen.add(b)
        for s in f.succ[b]:
            if s not in lp.body:
                continue
            t = f.term(b)
            if t.op == "br" and t.ops and isinstance(t.ops[0], int) and t.ops[0] in f.insts:
                y = f.insts[t.ops[0]]
                if y.op == "icmp" and y.get("pred") in ("eq", "ne"):
                    d = lin(f, y.ops[0]) - lin(f, y.ops[1])
                    if d == V(1) or d == V(1).scale(-1):
                        if (s == t.get("succ")[0]) == (y.get("pred") == "eq"):
                            continue        # value is null
            if s == lp.header:
                return False
            st.append(s)
    return True


# ------------------------------------------------------------------ C11
@prop("C11", "recognised complete minimum fold over the group's members on every return path",
      "Proves that the group's value is the minimum over all members as read, and that the group holds exactly the members it was built from; concurrent advances between reads only make the value smaller than the true minimum.")
def c11(c):
    p = c.program("disruptor.cpp", [r"^disruptor4cpp::fixed_sequence_group<"], )
    for f in p.find("disruptor4cpp::fixed_sequence_group::get"):
        c.analysed(f)

        def ev(el, y):
            if y.op != "load":
                return False
            a = f.addr(y.ops[0])
            return a.root[0] == "load" and el.elem_load(a.root[2])
        for r in [x for x in f.all() if x.op == "ret"]:
            for n, (ok, ld, why) in enumerate(min_values(f, r.ops[0], r.blk, None, ev)):
                c.ob("group-minimum", "get", ok, f.where(r), "a member may be left out of the minimum: %s" % why)
                for l in ld:
                    c.ob("group-acquire", "get", l.get("ord") in ACQ, f.where(l), "a member is read without acquire ordering")
    for f in p.find("disruptor4cpp::fixed_sequence_group::create"):
        c.analysed(f)
        lst = "vector" in f.dem.split("create", 1)[1]
        tag = "create(%s)" % ("list" if lst else "one")
        adds = [x for x in f.calls(r"std::vector::(push_back|emplace_back|insert|assign|_M_range_insert|_M_assign_aux)$")]
        ctors = [x for x in f.calls(r"std::vector::vector$") if len(x.ops) >= 3]
        if lst:
            from .waiting import vec_ends
            arg = [n for n, a in enumerate(f.args) if not a["sret"]][0]
            ok = any(vec_ends(f, x, arg) or vec_ends_field(f, x, arg) for x in adds + ctors) or any(whole_push(f, x, arg) for x in adds)
            c.ob("group-members", tag, ok and len(adds + ctors) == 1 and (always(f, adds + ctors) or any(in_loop(f, x) for x in adds)), f.here(), "the group is not built from all given sequences")
        else:
            from .waiting import pushed_is
            arg = [n for n, a in enumerate(f.args) if not a["sret"]][0]
            ok = len(adds) == 1 and pushed_is(f, adds[0], arg) and always(f, adds) and not in_loop(f, adds[0])
            c.ob("group-members", tag, ok, f.here(), "the group does not hold the given sequence")


def in_loop(f, x):
    return any(x.blk in lp.body for lp in loops(f))


def always(f, xs):
    """No return is reached without one of these."""
    bad = []

    def step(x, st):
        if x in xs:
            return None
        if x.op == "ret":
            bad.append(x)
        return st
    explore(f, [(f.entry, 0, 0)], step)
    return not bad


def vec_ends_field(f, x, arg):
    have = set()
    for o in x.ops:
        if isinstance(o, int) and o in f.insts and f.insts[o].op == "load":
            b = f.addr(f.insts[o].ops[0])
            if b.root[0] == "arg" and b.root[2] == arg:
                have.add(b.off)
    return {0, 8} <= have


def whole_push(f, x, arg):
    for e in elem_loops(f):
        dom = dominators(f)
        if x.blk in e.lp.body and all(x.blk in dom[l] for l in e.lp.latches) and e.vec.startswith(arg_name(f, arg)) and pushes_elem(f, x, e):
            return True
    return False


def min_values(f, v, blk, came, ev, depth=4):
    """Each source of v is a complete minimum over one vector, or the only
    element of a one-element vector.  -> [(ok, loads, why)]"""
    why = []
    fo = min_fold(f, v, ev, why)
    if fo is not None:
        ok = (fo.init.const() or 0) >= (1 << 63) - 1
        return [(ok, fo.loads, "the fold does not start from the largest value")]
    x = f.insts.get(v) if isinstance(v, int) else None
    if x is None:
        return [(False, [], "a constant is returned")]
    if x.op == "phi" and depth:
        r = []
        for a, frm in x.get("inc"):
            r += min_values(f, a, frm, (frm, x.blk), ev, depth - 1)
        return r
    if x.op == "load":
        a = f.addr(x.ops[0])
        # element 0, with size one or as the start of a fold from it
        if a.root[0] == "load":
            st = facts_at(f, x)
            src = f.insts[a.root[2]].ops[0]
            e = _abs(f, lin(f, src), 8)
            vec = [k for k in e.t if k[0] == "_M_start"]
            if len(vec) == 1 and len(e.t) == 1 and e.c == 0:
                if size_is_one(f, x, vec[0][1]):
                    return [(True, [x], "")]
                return [(False, [x], "only the first member is read although there may be more")]
    return [(False, [], "; ".join(why[:1]) or "not a minimum")]


def size_is_one(f, x, vec):
    """Every way to x passes a test that the vector has exactly one element."""
    ok_edges = set()
    for b in f.order:
        t = f.term(b)
        if t.op != "br" or not t.ops or not isinstance(t.ops[0], int) or len(set(t.get("succ"))) != 2:
            continue
        y = f.insts.get(t.ops[0])
        if y is None or y.op != "icmp":
            continue
        d = _abs(f, lin(f, y.ops[0]) - lin(f, y.ops[1]), 8)
        S, F, N = Lin({("_M_start", vec): 1}), Lin({("_M_finish", vec): 1}), Lin({("_M_size", vec): 1})
        eq = d in (F - S + Lin({}, -8), S - F + Lin({}, 8), N + Lin({}, -1), N.scale(-1) + Lin({}, 1))
        if eq and y.get("pred") in ("eq", "ne"):
            ok_edges.add((b, t.get("succ")[0 if y.get("pred") == "eq" else 1]))
    seen, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == x.blk:
            return False
        st += [s for s in f.succ[b] if (b, s) not in ok_edges]
    return bool(ok_edges)


# ------------------------------------------------------------------ C12
@prop("C12", "effect and memory-ordering analysis of every operation of the sequence counter",
      "Each operation is a single atomic access with the ordering its users rely on; hardware atomicity is trusted.")
def c12(c):
    p = c.program("disruptor.cpp", [r"^disruptor4cpp::sequence::"])
    def only(f, ops):
        return [x for x in f.all() if x.op in ("load", "store", "cmpxchg", "atomicrmw") and f.addr(x.ops[1 if x.op == "store" else 0]).key().startswith("this.")]
    S = "disruptor4cpp::sequence::"
    for f in p.find(S + "get"):
        c.analysed(f)
        a = only(f, 0)
        r = [x for x in f.all() if x.op == "ret"]
        ok = len(a) == 1 and a[0].op == "load" and a[0].get("ord") in ACQ and all(lin(f, x.ops[0]) == V(a[0].i) for x in r)
        c.ob("get", "sequence::get", ok, f.here(), "get is not one acquiring read of the counter")
    for f in p.find(S + "set"):
        c.analysed(f)
        a = only(f, 0)
        ok = len(a) == 1 and a[0].op == "store" and a[0].get("ord") in REL and lin(f, a[0].ops[0]) == V(1)
        c.ob("set", "sequence::set", ok, f.here(), "set is not one releasing write of the given value")
    for f in p.find(S + "compare_and_set"):
        c.analysed(f)
        a = only(f, 0)
        ok = len(a) == 1 and a[0].op == "cmpxchg" and lin(f, a[0].ops[1]) == V(1) and lin(f, a[0].ops[2]) == V(2) and a[0].get("ord") in ("acq_rel", "seq_cst")
        for r in [x for x in f.all() if x.op == "ret"]:
            v, pol = bool_root(f, r.ops[0])
            y = f.insts.get(v) if isinstance(v, int) else None
            ok = ok and pol and y is not None and y.op == "extractvalue" and y.ops[0] == a[0].i and y.get("idx") == [1]
        c.ob("compare-and-set", "sequence::compare_and_set", ok, f.here(), "compare_and_set is not one atomic compare-and-exchange reporting its success")
    for n, inc in (("add_and_get", V(1)), ("increment_and_get", Lin({}, 1))):
        for f in p.find(S + n):
            c.analysed(f)
            a = only(f, 0)
            ok = len(a) == 1 and a[0].op == "atomicrmw" and a[0].get("rmw") == "add" and lin(f, a[0].ops[1]) == inc and a[0].get("ord") in REL
            ok = ok and all(lin(f, r.ops[0]) == V(a[0].i) + inc for r in f.all() if r.op == "ret")
            c.ob("add", "sequence::" + n, ok, f.here(), "%s is not one atomic addition returning the new value" % n)
    for f in p.find(S + "sequence"):
        c.analysed(f)
        st = [x for x in only(f, 0) if x.op == "store"]
        want = Lin({}, -1) if len(f.args) == 1 else V(1)
        c.ob("initial-value", "sequence(%s)" % ("" if len(f.args) == 1 else "value"), len(st) == 1 and lin(f, st[0].ops[0]) == want, f.here(), "a new counter does not start at %s" % ("-1" if len(f.args) == 1 else "the given value"))


# ------------------------------------------------------------------ C13
@prop("C13", "loop-coverage and dominance analysis of consumer registration and removal",
      "Registration and removal are decided for every list; registration concurrent with publishing is outside the domain (the list is not synchronised).")
def c13(c):
    c.assumption("consumers are registered and removed while no producer is publishing")
    for s in seqrs(c, (8,)):
        for f in s.fn("add_gating_sequences"):
            tag = name(f).split("(")[0]
            pos = {s.cursor, single_position(s) if not s.multi else s.cursor}
            els = [e for e in elem_loops(f) if e.vec.startswith(arg_name(f, 1))]
            sets, regs = [], []
            dom = dominators(f)
            for e in els:
                for b in e.lp.body:
                    every = all(b in dom[l] for l in e.lp.latches)
                    for x in f.blocks[b]:
                        if x.op == "store":
                            a = f.addr(x.ops[1])
                            if a.root[0] == "load" and is_elem(f, a.root[2], e) and every:
                                sets.append((x, e))
                        if x.is_call() and (x.callee or "").startswith("std::vector::") and (x.callee or "").rsplit("::", 1)[1] in ("push_back", "emplace_back") and every:
                            regs.append((x, e))
            rng = [x for x in f.calls(r"std::vector::(insert|_M_range_insert)$") if vec_ends_field(f, x, 1)]
            c.ob("consumer-set-to-cursor", tag, bool(sets), f.here(), "not every registered consumer is first moved to the producer's position")
            for x, e in sets:
                a = lin(f, x.ops[0]).atom()
                y = f.insts.get(a[1]) if a and a[0] == "v" else None
                ok = y is not None and y.op == "load" and f.addr(y.ops[0]).key() in pos and y.blk in dom[x.blk]
                c.ob("consumer-set-to-cursor", tag + " value", ok, f.where(x), "the consumer is set to something else than the producer's position")
                c.ob("consumer-set-release", tag, x.get("ord") in REL, f.where(x), "the consumer's position is set without release ordering")
            other = [x for x in f.all() if x.is_call() and (x.callee or "").startswith("std::vector::") and x.ops and f.addr(x.ops[0]).key().startswith("this.gating_sequences") and x not in [r[0] for r in regs] + rng
                     and not (x.callee or "").rsplit("::", 1)[1] in ("begin", "end", "cbegin", "cend", "size", "capacity", "empty", "operator[]", "back", "front", "reserve", "data")]
            c.ob("consumers-kept", tag, not other, f.where(other[0]) if other else f.here(), "registering a consumer changes the list of those registered before")
            c.ob("consumer-registered", tag, len(regs) + len(rng) == 1, f.here(), "not every given consumer is registered exactly once")
            for x, e in regs:
                ok = any(pushes_elem(f, x, e) for _ in (0,))
                c.ob("consumer-registered", tag + " element", ok, f.where(x), "something else than the given consumer is registered")
        for f in s.fn("remove_gating_sequence"):
            removal(c, f, name(f).split("(")[0])
        for f in s.fns:
            b = f.sq.rsplit("::", 1)[1]
            if b in ("add_gating_sequences", "remove_gating_sequence") or b.startswith("~") or b == s.cls.rsplit("::", 1)[1]:
                continue
            w = [x for x in f.all() if (x.op == "store" and f.addr(x.ops[1]).key().startswith("this.gating_sequences")) or
                 (x.is_call() and (x.callee or "").startswith("std::vector::") and x.ops and f.addr(x.ops[0]).key().startswith("this.gating_sequences") and not (x.callee or "").rsplit("::", 1)[1].startswith(("begin", "end", "size", "operator[]")))]
            c.ob("registration-owner", name(f), not w, f.where(w[0]) if w else f.here(), "the set of registered consumers is changed elsewhere")


def arg_name(f, n):
    return f.argvar.get(n, (f.args[n]["name"] or "arg%d" % n,))[0]


def is_elem(f, v, e):
    """The value is the element of this round (possibly through a local copy)."""
    if e.elem_load(v):
        return True
    x = f.insts.get(v)
    if x is None or x.op != "load":
        return False
    a = f.addr(x.ops[0])
    if a.root[0] != "alloca":
        return False
    st = [y for y in f.all() if y.op == "store" and f.addr(y.ops[1]).key() == a.key()]
    return bool(st) and all(y.blk in e.lp.body and isinstance(y.ops[0], int) and e.elem_load(y.ops[0]) for y in st)


def pushes_elem(f, x, e):
    for o in x.ops[1:]:
        if not isinstance(o, int):
            continue
        if e.is_slot(o) or e.elem_load(o):
            return True
        a = f.addr(o)
        if a.root[0] == "alloca":
            for y in f.all():
                if y.op == "store" and f.addr(y.ops[1]).key() == a.key() and y.blk in e.lp.body and e.elem_load(y.ops[0]):
                    return True
    return False


def removal(c, f, tag):
    er = [x for x in f.calls(r"std::vector::erase$")]
    c.ob("consumer-removed", tag, bool(er), f.here(), "a consumer is never removed")
    rm = [x for x in f.calls(r"std::remove$")]
    rets_ = [x for x in f.all() if x.op == "ret"]
    if rm:
        # erase-remove over the whole list
        for x in rm:
            k = [vec_end_of(f, o) for o in x.ops[:2]]
            ok = k == [("this.gating_sequences_", "_M_start"), ("this.gating_sequences_", "_M_finish")] or (k[0] and k[1] and k[0][1] == "_M_start" and k[1][1] == "_M_finish")
            c.ob("removes-all", tag, bool(ok), f.where(x), "not the whole list is searched")
        for x in er:
            ok = len(x.ops) >= 3 and lin(f, x.ops[1]).atom() in {("v", y.i) for y in rm} and (vec_end_of(f, x.ops[2]) or ("", ""))[1] == "_M_finish"
            c.ob("removes-only-it", tag, ok, f.where(x), "other consumers are removed")
        return
    # hand-written loop: erase only the element equal to the argument
    for x in er:
        pos_ = vec_atoms(f, lin(f, x.ops[1]))
        ok = guarded_equal(f, x, pos_) and (len(x.ops) < 3 or lin(f, x.ops[2]) - lin(f, x.ops[1]) == Lin({}, 8))
        c.ob("removes-only-it", tag, ok, f.where(x), "a consumer other than the given one can be removed")
    for lp in loops(f):
        if not any(x.blk in lp.body for x in er):
            continue
        ex = [e for e in loop_exits(f, lp) if not throws_only(f, e[1])]
        ok, why = scan_all(f, lp, ex, er)
        c.ob("removes-all", tag, ok, f.where(f.term(lp.header)), why)
    inloop = any(x.blk in lp.body for lp in loops(f) for x in er)
    if er and not inloop:
        c.ob("removes-all", tag, False, f.where(er[0]), "only one occurrence is removed")
    # the result says whether something was removed
    bad = []

    def step(x, st):
        hit, env = st
        if x in er:
            return (True, env)
        if x.op == "ret":
            v = value_in(f, x.ops[0], env)
            if v is not None and bool(v) != hit or v is None:
                bad.append(x)
            return None
        return st

    def edge(a, b, st):
        hit, env = st
        e = dict(env)
        n = {}
        for p in f.blocks[b]:
            if p.op != "phi":
                break
            for v, frm in p.get("inc"):
                if frm == a:
                    k = value_in(f, v, env)
                    if k is not None:
                        n[p.i] = k
                    else:
                        e.pop(p.i, None)
                    break
        e.update(n)
        return (hit, frozenset(e.items()))
    explore(f, [(f.entry, 0, (False, frozenset()))], step, edge)
    c.ob("removal-reported", tag, not bad, f.where(bad[0]) if bad else f.here(), "the result does not say whether the consumer was registered")


def value_in(f, v, env):
    """Truth of a value whose origin is a constant (through known phis)."""
    e = dict(env)
    if not isinstance(v, int):
        return bool(v["c"]) if "c" in v else None
    pol = True
    r, pol = bool_root(f, v)
    if not isinstance(r, int):
        return bool(r.get("c")) == pol if "c" in r else None
    if r in e:
        return e[r] == pol
    return None


def vec_end_of(f, v):
    from ..flow import vector_field
    return vector_field(f, v)


def guarded_equal(f, x, pos_):
    """x is reached only after the element at pos_ compared equal to the argument."""
    dom = dominators(f)
    for b in dom[x.blk]:
        t = f.term(b)
        if t.op != "br" or not t.ops or not isinstance(t.ops[0], int):
            continue
        y = f.insts.get(t.ops[0])
        if y is None or y.op != "icmp" or y.get("pred") not in ("eq", "ne"):
            continue
        a, b2 = y.ops
        for p, q in ((a, b2), (b2, a)):
            z = f.insts.get(p) if isinstance(p, int) else None
            if z is not None and z.op == "load" and lin(f, q) == V(1) and vec_atoms(f, lin(f, z.ops[0])) == pos_:
                s = t.get("succ")[0 if y.get("pred") == "eq" else 1]
                o = [n for n in t.get("succ") if n != s]
                if s == x.blk or s in dom[x.blk]:
                    return True
    return False


def scan_all(f, lp, ex, er):
    """The loop leaves only when the position equals the current end, starts at
    the beginning, steps by one element unless it erased (then it stays)."""
    if len(ex) != 1:
        return False, "the search can stop before the end of the list"
    b, s = ex[0]
    t = f.term(b)
    y = f.insts.get(t.ops[0]) if t.ops and isinstance(t.ops[0], int) else None
    if y is None or y.op != "icmp":
        return False, "the search does not end at the end of the list"
    if y.get("pred") in ("eq", "ne") and (s == t.get("succ")[0]) != (y.get("pred") == "eq"):
        return False, "the search leaves the list before its end"
    d = _abs(f, lin(f, y.ops[0]) - lin(f, y.ops[1]), 8)
    for p in [q for q in f.blocks[lp.header] if q.op == "phi"]:
        k = d.t.get(("v", p.i))
        if k not in (1, -1):
            continue
        lim = (d.scale(k) - V(p.i)).scale(-1)
        ptr = any(a[0] == "_M_finish" for a in lim.t)
        idx = any(a[0] == "_M_size" for a in lim.t)
        if not (ptr or idx) or lim.c or len(lim.t) != 1:
            continue
        unit = 8 if ptr else 1
        # the end is read again in the loop
        fresh = [x for z in lp.body for x in f.blocks[z] if x.op == "load" and f.addr(x.ops[0]).key().endswith("_M_finish")]
        if not fresh:
            return False, "the end of the list is not read again after an erase"
        for v, frm in p.get("inc"):
            if frm not in lp.body:
                i = _abs(f, lin(f, v), 8)
                if not (ptr and len(i.t) == 1 and list(i.t)[0][0] == "_M_start" and i.c == 0 or idx and not i.t and i.c == 0):
                    return False, "the search does not start at the beginning"
                continue
            for src, erased in sources(f, v, frm, lp, er):
                if erased:
                    ok = (isinstance(src, int) and f.insts.get(src) in er) if ptr else lin(f, src) == V(p.i)
                    if not ok:
                        return False, "after an erase the search skips an element"
                elif lin(f, src) != V(p.i).plus(unit):
                    return False, "the search does not go on to the next element"
        return True, ""
    return False, "the search is not over the registered consumers"


def sources(f, v, frm, lp, er, depth=4):
    x = f.insts.get(v) if isinstance(v, int) else None
    if x is not None and x.op == "phi" and x.blk in lp.body and x.blk != lp.header and depth:
        r = []
        for a, g in x.get("inc"):
            r += sources(f, a, g, lp, er, depth - 1)
        return r
    # did the path to frm pass an erase?  (a dominating one in the loop)
    dom = dominators(f)
    erased = any(e.blk in dom[frm] and e.blk in lp.body for e in er)
    return [(v, erased)]
