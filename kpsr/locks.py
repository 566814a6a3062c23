"""Lock events and their replay along one path."""
import re

MUT = re.compile(r"^std::(?:recursive_|timed_|shared_|recursive_timed_|shared_timed_|__recursive_|__)*mutex(?:_base)?::(lock|unlock|try_lock|lock_shared|unlock_shared|try_lock_shared|try_lock_for|try_lock_until)$")
CV = re.compile(r"^std::(?:_V2::)?condition_variable(?:_any)?::(\w+)$")


def obj(m, st, v, path=None):
    """name of a mutex or condition variable object from an address inside it"""
    s = path(m, st, v) if path else m.path(st, v)[0]
    return re.sub(r"\.(_M_|__data|_Mutex|__mutex).*$", "", s)


def lock_event(m, x, st, vals, res, path=None):
    """event (or tuple of events) for a lock, wait or notification; None otherwise"""
    q = x.callee
    if not q:
        return None
    g = MUT.match(q)
    if g:
        k = g.group(1)
        if k in ("lock", "lock_shared"):
            return ("LOCK", obj(m, st, vals[0], path), x.i, k == "lock_shared")
        if k.startswith("unlock"):
            return ("UNLOCK", obj(m, st, vals[0], path), x.i)
        return ("TRY", obj(m, st, vals[0], path), x.i, res)
    if q == "std::lock":
        if "std::unique_lock<" in (x.get("dem") or ""):
            vals = [m.read(st, v, 8, record=False) for v in vals]
        return tuple(("LOCK", obj(m, st, v, path), x.i, False, "multi") for v in vals)
    g = CV.match(q)
    if g:
        k = g.group(1)
        if k.startswith("wait"):
            return ("WAIT", obj(m, st, vals[0], path), obj(m, st, vals[1], path), x.i, res)
        if k.startswith("notify"):
            return ("NOTIFY", obj(m, st, vals[0], path), k[7:], x.i)
    return None


def replay(e, problems=None):
    """-> list of (event, frozenset of held mutexes before it), final held set.  e: End"""
    held = []
    pre = len(e.pre)
    out = []
    for n, ev in enumerate(tuple(e.pre) + tuple(e.ev)):
        if n >= pre:
            out.append((ev, frozenset(held)))
        k = ev[0]
        if k == "TRY":
            d = e.m.decide(e.st, ev[3])
            if d is not False:
                held.append(ev[1])
        elif k == "LOCK":
            if problems is not None and n >= pre:
                if ev[1] in held:
                    problems.append((ev, "%s is locked again by its holder" % ev[1]))
                elif held and len(ev) < 5:
                    problems.append((ev, "nested", tuple(held)))
            held.append(ev[1])
        elif k == "UNLOCK":
            if ev[1] in held:
                held.remove(ev[1])
            elif problems is not None and n >= pre:
                problems.append((ev, "%s is unlocked without being held" % ev[1]))
        elif k == "WAIT" and problems is not None and n >= pre:
            if ev[2] not in held:
                problems.append((ev, "a condition is awaited without its mutex"))
    return out, held
